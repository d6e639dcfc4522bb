"""C38: UCX channels keep what socket channels keep, with a stand-in for UCX itself."""
import asyncio
import glob
import json
import os
import random
import signal
import sys

import numpy as np

# a stand-in for what is not installed, also in sub pools; before xoscar looks for it
STANDIN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "standin")
sys.path.insert(0, STANDIN)
os.environ["PYTHONPATH"] = STANDIN + os.pathsep + os.environ.get("PYTHONPATH", "")

import xoscar as xo  # noqa: E402
from xoscar.backends.communication import ucx  # noqa: E402
from xoscar.backends.communication.errors import ChannelClosed  # noqa: E402
from xoscar.errors import ServerClosed  # noqa: E402

from .. import pools  # noqa: E402
from .. import serops as so  # noqa: E402
from . import c22, c26  # noqa: E402

ID = "C38"
LEVEL = "exploration"
RULE = ("xoscar's UCX channels over a stand-in for UCX (messages matched in order, long ones read from the sender's memory when the receiver is ready, ends that close at any time): channels between two ends, and pools whose "
        "processes are reached by UCX or sockets, with and without internal addresses: values, calls, tells, copies of buffers and files, wrong copies, cancelled calls and killed processes; values and buffers are compared, the "
        "order and number of calls judged, and at the end the stand-in's log of endpoints opened, closed and misused; distinct = (kind, path, shape); all non-trivial")
WAIT = 60
GONE = (ServerClosed, ChannelClosed, ConnectionError, EOFError, xo.ActorNotExist)


def events(ctx):
    out = {}
    for f in glob.glob(os.path.join(ctx.scratch, "ucxlog.*")):
        out[int(f.rsplit(".", 1)[1])] = [json.loads(x) for x in open(f).read().splitlines()]
    return out


def judge(ctx, what):
    """Orderly ends close all; nothing is cut or mistaken for something else."""
    for pid, evs in events(ctx).items():
        ctx.count("endpoint_events", len(evs))
        for e in evs:
            ctx.check(e["ev"] not in ("truncated", "short"), "a message was received as another one", event=e, where=what, me=pid == os.getpid())
            ctx.check(e["ev"] != "handler failed", "serving a connection failed", event=e, where=what, me=pid == os.getpid())
        if pid == os.getpid():
            left = {e["ep"] for e in evs if e["ev"] == "open"} - {e["ep"] for e in evs if e["ev"] == "close"}
            ctx.check(not left, "endpoints stay open though everything was closed", number=len(left), where=what)
            ports = [e["port"] for e in evs if e["ev"] == "listen"]
            ctx.check(sorted(ports) == sorted(e["port"] for e in evs if e["ev"] == "unlisten"), "a listener stays though its server ended", where=what)


def forget(ctx):
    for f in glob.glob(os.path.join(ctx.scratch, "ucxlog.*")):
        os.unlink(f)


class Peer(c26.Holder):
    """Keeps what is told and answers what is asked."""

    def __init__(self, scratch):
        super().__init__(scratch)
        self.told = []

    def echo(self, v):
        return v

    def note(self, who, i, v):
        self.told.append((who, i))
        return so.diff(c22.payload(v[0]), v[1])

    def notes(self):
        return self.told

    def boom(self, v):
        raise KeyError(v)

    def pid(self):
        return os.getpid()

    async def ask(self, ref, v):
        return await ref.echo(v)


class Slow(xo.StatelessActor):
    def __init__(self):
        self.log = []

    async def nap(self, secs):
        try:
            await asyncio.sleep(secs)
            self.log.append("done")
        except asyncio.CancelledError:
            self.log.append("cancelled")
            raise

    async def seen(self):
        return self.log


async def calls(ctx, pl, peers, rng, seed):
    """Several callers at once: each gets its own answer, each sender's notes arrive in order."""
    ref = rng.choice(peers)
    base = len(await ref.notes())
    k = rng.choice([1, 2, 5])

    async def caller(j):
        for i in range(rng.randint(1, 8)):
            s = rng.getrandbits(40)
            v = c22.payload(s)
            how = rng.choice(["echo", "echo", "note", "tell", "boom", "via"])
            ctx.count("calls")
            if how == "echo":
                got = await ref.echo(v)
                d = so.diff(c22.payload(s), got, seen={"original"})
                ctx.check(d is None, "a value came back as another", difference=d, payload_seed=s)
            elif how == "note":
                d = await ref.note(j, len(sent[j]), (s, v))
                sent[j].append(len(sent[j]))
                ctx.check(d is None, "a value arrived as another", difference=d, payload_seed=s)
            elif how == "tell":
                await ref.note.tell(j, len(sent[j]), (s, v))
                sent[j].append(len(sent[j]))
            elif how == "boom":
                try:
                    await ref.boom(i)
                    ctx.violation("an error did not arrive")
                except KeyError as e:
                    ctx.check(e.args == (i,), "an error came back as another", got=repr(e))
            else:
                other = rng.choice(peers)
                got = await other.ask(await xo.actor_ref(ref.uid, address=ref.address), v) if other.address != ref.address else v
                d = so.diff(c22.payload(s), got, seen={"original"})
                ctx.check(d is None, "a value came back as another", difference=d, payload_seed=s)

    sent = {j: [] for j in range(k)}
    await ctx.within(asyncio.gather(*map(caller, range(k))), WAIT, "calls over UCX", seed=seed)
    total = sum(map(len, sent.values()))
    for _ in range(500):
        got = (await ctx.within(ref.notes(), WAIT, "a call"))[base:]
        if len(got) >= total:
            break
        await asyncio.sleep(0.01)
    for j, want in sent.items():
        mine = [i for who, i in got if who == j]
        ctx.check(mine == want, "what a sender told did not arrive once and in order", sender=j, got=mine, sent=want)
    ctx.case(("calls", k, c26.name_of(pl, ref.address), total), sample=dict(callers=k, notes=total))


async def empties(ctx, peers, rng):
    """Nothing at all is a value, too."""
    ref = rng.choice(peers)
    for v in (b"", [b"", b""], np.zeros(0), {"a": np.zeros((0, 3), "i4"), "b": b"", "c": ""}, [b"", b"x" * rng.choice([1, 50000]), b""]):
        got = await ctx.within(ref.echo(v), WAIT, "a call with an empty value")
        ctx.check(so.diff(v, got, seen={"original"}) is None, "a value came back as another", got=repr(got)[:80])
    ctx.case(("empty", rng.random() < 0))


async def cancelling(ctx, slow, rng):
    ref = rng.choice(slow)
    base = len(await ref.seen())
    t = asyncio.ensure_future(ref.nap(30))
    other = asyncio.ensure_future(ref.nap(0.1))
    await asyncio.sleep(rng.choice([0.02, 0.05]))
    t.cancel()
    try:
        await ctx.within(t, WAIT, "a cancelled call")
        ctx.violation("a cancelled call returned")
    except asyncio.CancelledError:
        pass
    await ctx.within(other, WAIT, "a call made beside a cancelled one")
    for _ in range(200):
        seen = (await ctx.within(ref.seen(), WAIT, "a call"))[base:]
        if len(seen) == 2:
            break
        await asyncio.sleep(0.01)
    ctx.check(sorted(seen) == ["cancelled", "done"], "cancelling one call did not cancel it alone", seen=seen)
    ctx.case(("cancel", ref.address.split(":")[0]))


async def cut_short(ctx, peers, rng):
    """A call given up while it is being sent harms no other."""
    ref = rng.choice(peers)
    for _ in range(3):
        v = rng.choice([np.zeros(rng.choice([5, 200_000, 3_000_000]), "u1"), [b"x" * 3000] * 30])
        t = asyncio.ensure_future(ref.echo(v))
        other = asyncio.ensure_future(ref.echo([v, 1]))
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
            await asyncio.sleep(rng.choice([0, 0, 0.001]))
        t.cancel()
        try:
            await ctx.within(t, WAIT, "a call given up")
        except asyncio.CancelledError:
            pass
        got = await ctx.within(other, WAIT, "a call made beside one that was given up")
        ctx.check(so.diff([v, 1], got, seen={"original"}) is None, "a call got another answer", got=repr(got)[:80])
        ctx.count("given_up")
    ctx.case(("given up", ref.address.split(":")[0]))


async def after_wrong(ctx, peers, rng):
    """Whatever copy was refused, calls and copies of others go on."""
    for ref in peers:
        ctx.check(await ctx.within(ref.echo(5), WAIT, "a call after a refused copy") == 5, "a call got another answer")


async def killing(ctx, pl, peers, slow, rng):
    """Who waits for a process that is gone is told; others go on."""
    ctx.phase("killing a process")
    addr = rng.choice(pools.subs(pl))
    mine = [r for r in slow if r.address == addr]
    rest = [r for r in peers if r.address != addr]
    pid = await next(r for r in peers if r.address == addr).pid()
    waiting = [asyncio.ensure_future(mine[0].nap(60)) for _ in range(rng.choice([1, 3]))]
    big = rng.random() < 0.5
    if big:
        victim = next(r for r in peers if r.address == addr)
        waiting.append(asyncio.ensure_future(victim.echo(np.zeros(30_000_000, "u1"))))
    await asyncio.sleep(rng.choice([0.05, 0.2]))
    os.kill(pid, signal.SIGKILL)
    for t in waiting:
        try:
            await ctx.within(t, WAIT, "a call to a process that was killed")
            # only the one which may have been answered before
            ctx.check(big and t is waiting[-1], "a call to a process that was killed returned")
        except GONE:
            ctx.count("told_of_death")
    for ref in rest:
        ctx.check(await ctx.within(ref.echo(b"x" * 100_000), WAIT, "a call beside a killed process") == b"x" * 100_000, "a call got another answer")
    ctx.case(("killed", len(waiting), big))


async def stopping(ctx, rng):
    """Servers that stop, handlers that return and receives given up end their channels, and only theirs."""
    ctx.phase("ucx: stopping")
    how = rng.choice(["stop", "stop", "return", "give up"])
    k = rng.choice([1, 2, 4])
    ended = []

    async def handler(chan):
        try:
            while True:
                m = await chan.recv()
                await chan.send(m)
                if m == "return":
                    return
        except c22.CLOSED:
            ended.append(chan)

    s, first = await c22.server("ucx", handler)
    address = s.address
    clients = [first] + [await ucx.UCXClient.connect(address) for _ in range(k - 1)]
    try:
        for i, c in enumerate(clients):
            await c.send(i)
            ctx.check(await ctx.within(c.recv(), WAIT, "receiving") == i, "a message came back as another")
        if how == "stop":
            waiting = [asyncio.ensure_future(c.recv()) for c in clients]
            await asyncio.sleep(rng.choice([0, 0.01]))
            await ctx.within(s.stop(), WAIT, "stopping a server")
            ctx.check(s.stopped, "a stopped server is not stopped")
            for t in waiting:
                try:
                    await ctx.within(t, WAIT, "receiving from a server that stops")
                    ctx.violation("something arrived that was never sent")
                except c22.CLOSED:
                    pass
            try:
                await ctx.within(ucx.UCXClient.connect(address), WAIT, "connecting to a stopped server")
                ctx.violation("a stopped server accepts connections")
            except c22.CLOSED:
                pass
        elif how == "return":
            c = clients.pop()
            await c.send("return")
            ctx.check(await ctx.within(c.recv(), WAIT, "receiving") == "return", "a message came back as another")
            try:
                await ctx.within(c.recv(), WAIT, "receiving when the handler has returned")
                ctx.violation("something arrived that was never sent")
            except c22.CLOSED:
                pass
            await c.close()
        else:
            c = clients.pop()
            t = asyncio.ensure_future(c.recv())
            await asyncio.sleep(rng.choice([0.001, 0.01]))
            t.cancel()
            try:
                await ctx.within(t, WAIT, "a receive given up")
                ctx.violation("something arrived that was never sent")
            except (*c22.CLOSED, asyncio.CancelledError):
                pass
            # nobody knows how much of a message was taken
            ctx.check(c.closed, "a channel goes on though a receive was given up")
            for _ in range(500):
                if ended:
                    break
                await asyncio.sleep(0.01)
            ctx.check(len(ended) == 1, "the other end is not told that a channel ended", ended=len(ended))
        if how != "stop":
            for i, c in enumerate(clients):
                await c.send([i])
                ctx.check(await ctx.within(c.recv(), WAIT, "receiving beside a channel that ended") == [i], "a message came back as another")
        ctx.case(("stopping", how, k))
        ctx.count("stops")
    finally:
        for c in clients:
            await c.close()
        if not s.stopped:
            await s.stop()


async def beside_wrong(ctx, peers, rng, seed, kind):
    """A copy that is refused harms no copy and no call made at the same time."""
    dest = rng.choice(peers)
    n = rng.choice([10, 3000, 100_000])
    spec = {"small": ("mv", "u1", n - 1, 0), "read-only": ("ro", "u1", n, 0)}.get(kind, ("arr", "u1", n, 0))
    bad = await dest.make([("arr", "u1", n, 0), spec])
    target = list(bad)
    if kind == "gone":
        target[1] = c26.BufferRef(dest.address, os.urandom(32))
    good = [await dest.make([("arr", "u1", n, 2)] * 2) for _ in range(2)]
    what = [("arr", "u1", n, seed * 100 + i, kind == "strided") for i in range(2)]

    async def wrong():
        try:
            await c26.copying(None, what, target, None)
        except Exception as e:
            return e

    jobs = [c26.copying(None, what, g, None) for g in good] + [dest.echo(i) for i in range(3)]
    jobs.insert(rng.randrange(len(jobs)), wrong())
    rs = await ctx.within(asyncio.gather(*jobs), WAIT, "copies beside one that is refused", kind=kind, n=n)
    ctx.check(kind == "strided" or any(isinstance(r, Exception) for r in rs), "a copy was not refused", kind=kind)
    for g in good:
        for (data, around, _), (_, _, _, s, _) in zip(await dest.look(g), what):
            ctx.check(data == c26.pattern(s, n).tobytes() and around, "a copy beside a refused one went wrong", kind=kind, n=n)
        await dest.free(g)
    for data, around, _ in await dest.look(bad):
        ctx.check(around, "a refused copy wrote where it should not", kind=kind)
    await dest.free(bad)
    ctx.count("refused_beside_others")
    ctx.case(("beside wrong", kind, n, dest.address.split(":")[0]))


async def options(ctx, rng):
    """What the configuration says is what UCX is given."""
    ctx.phase("options")
    saved = dict(os.environ)
    names = {"tcp-port": "UCX_TCP_PORT", "log-level": "UCX_LOG_LEVEL", "net_devices": "UCX_NET_DEVICES", "tls": "UCX_TLS"}
    try:
        for _ in range(40):
            os.environ.clear()
            os.environ.update(saved)
            conf = {k: rng.choice([True, False, None]) for k in ("tcp", "infiniband") if rng.random() < 0.5}
            env = {k: rng.choice(["a", "b"]) for k in names if rng.random() < 0.5}
            outer = {v: "outer" for v in names.values() if v != "UCX_TLS" and rng.random() < 0.3}
            if rng.random() < 0.2:
                outer["UCX_TLS"] = "all"
            os.environ.update(outer)
            if env:
                conf["environment"] = env
            any_flag = bool(conf.get("tcp") or conf.get("infiniband"))
            opts, envs = ucx.UCXInitializer._get_options(conf)
            ctx.check(opts.get("TLS") == ({True: "ib,tcp", False: "tcp"}[bool(conf.get("infiniband"))] if any_flag else outer.get("UCX_TLS")), "UCX would be configured as not asked", conf=conf, options=opts)
            want = {names[k]: v for k, v in env.items() if names[k] not in outer and not (k == "tls" and "TLS" in opts)}
            ctx.check(envs == want, "UCX would get other variables than asked for", conf=conf, outer=outer, got=envs, want=want)
            forget(ctx)
            before = dict(os.environ)
            ucx.UCXInitializer.init(conf)
            ctx.check(dict(os.environ) == before and os.getenv("UCX_LOG_LEVEL") == before.get("UCX_LOG_LEVEL"), "starting UCX changed the environment", conf=conf)
            ucx.UCXInitializer.init({})
            inits = [e for e in events(ctx).get(os.getpid(), []) if e["ev"] == "init"]
            ctx.check(len(inits) == 1, "UCX was started another number of times than once", n=len(inits))
            seen = {k: v for k, v in inits[0]["env"].items() if k in names.values()}
            ctx.check(seen == {**{k: v for k, v in before.items() if k in names.values()}, **want}, "UCX was started with other variables than asked for", conf=conf, outer=outer, seen=seen)
            ucx.UCXInitializer.reset()
            ctx.case(("options", tuple(sorted(conf.items() - {("environment", None)}) if not env else sorted(k for k in conf)), tuple(sorted(env)), tuple(sorted(outer))))
            ctx.count("configurations")
    finally:
        os.environ.clear()
        os.environ.update(saved)
        ucx.UCXInitializer.reset()
        forget(ctx)


async def world(ctx, rng, n):
    ctx.phase(f"world {n}")
    internal = n % 2 == 0
    schemes = rng.choice([["ucx"] * 3, ["ucx"] * 3, [None, "ucx", "ucx"], ["ucx", None, "ucx"], ["ucx", "ucx", None]])
    os.environ["VF_UCX_EAGER"] = str(rng.choice([0, 16, 1000, 8192, 10**9]))
    os.environ["VF_UCX_SEED"] = str(rng.randint(0, 10**6))
    import ucxx

    ucxx.LIMIT = int(os.environ["VF_UCX_EAGER"])
    forget(ctx)
    kw = dict(external_address_schemes=schemes, enable_internal_addresses=[internal] * 3)
    if rng.random() < 0.3:
        kw["extra_conf"] = {"ucx": {"tcp": True}}
    pl = await ctx.within(pools.start(2, auto_recover=False, **kw), WAIT, "starting a pool over UCX", schemes=schemes)
    killed = False
    try:
        for a, s in zip(pools.addresses(pl), schemes):
            ctx.check(a.startswith("ucx://") == (s == "ucx"), "a process has an address of another scheme than asked for", address=a, scheme=s)
        peers = [await ctx.within(xo.create_actor(Peer, ctx.scratch, uid=f"peer{i}", address=a), WAIT, "creating an actor over UCX") for i, a in enumerate(pools.addresses(pl))]
        slow = [await ctx.within(xo.create_actor(Slow, uid=f"slow{i}", address=a), WAIT, "creating an actor over UCX") for i, a in enumerate(pools.addresses(pl))]
        who = [None] + peers
        for i in range(ctx.n(14, 40)):
            seed = n * 1000 + i
            ctx.phase(f"world {n} (internal addresses: {internal}, {schemes}) round {i}")
            await calls(ctx, pl, peers, rng, seed)
            await empties(ctx, peers, rng)
            await c26.buffers(ctx, pl, peers, who, rng, seed)
            await c26.files(ctx, pl, peers, who, rng, seed)
            if i % 3 == 0:
                await c26.wrong(ctx, pl, peers, who, rng, seed)
                await after_wrong(ctx, peers, rng)
                for kind in ("small", "read-only", "gone", "strided"):
                    await beside_wrong(ctx, peers, rng, seed, kind)
                await c26.shared_destination(ctx, peers, who, rng, seed)
                await c26.relayed(ctx, peers, rng, seed)
            if i % 4 == 1:
                await cancelling(ctx, slow, rng)
            if i % 2:
                await cut_short(ctx, peers, rng)
            if ctx.violations or (i > 5 and not ctx.left(30, 400)):
                break
        if rng.random() < 0.6:
            killed = True
            await killing(ctx, pl, peers, slow, rng)
    except Exception:
        # what the endpoints saw
        for pid, evs in events(ctx).items():
            print(pid, [e for e in evs if e["ev"] in ("truncated", "short", "handler failed", "failed")], flush=True)
        raise
    finally:
        await ctx.within(pl.stop(), WAIT, "stopping a pool over UCX")
    await asyncio.sleep(0.2)
    judge(ctx, f"world {n}" + (", one process killed" if killed else ""))


async def run(ctx):
    rng = ctx.rng
    os.environ["VF_UCX_LOG"] = os.path.join(ctx.scratch, "ucxlog")
    import ucxx

    await options(ctx, rng)
    n = 0
    while n < 10 or ctx.left(14, 180):
        n += 1
        ucxx.LIMIT = rng.choice([0, 16, 1000, 8192, 10**9])
        forget(ctx)
        await c22.chatter(ctx, rng, "ucx")
        await c22.reuse(ctx, rng, "ucx")
        await c22.closing(ctx, rng, "ucx")
        await stopping(ctx, rng)
        await asyncio.sleep(0.05)
        judge(ctx, "channels")
        if ctx.violations:
            return
    n = 0
    while n < 3 or ctx.left(25, 400):
        n += 1
        await world(ctx, rng, n)
        if ctx.violations:
            break
