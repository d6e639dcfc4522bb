"""C19: through proxies everything works as it does directly, and nothing goes past them."""
import asyncio
import os
import random
import signal
import sys

import numpy as np

import xoscar as xo
from xoscar.errors import ActorAlreadyExist, ActorNotExist, ServerClosed

from .. import pools
from ..sites import Cancelled, Site

ID = "C19"
LEVEL = "exploration"
RULE = ("hosts (pools on addresses of their own) in chains of one to three hops, configured by host, by wildcard or by address; every operation - creating, looking up, calling, telling, batches, generators, errors, cancelling, destroying, killing, recovering, "
        "configuration, references passed on - from clients, main code and actors of one host to actors of another, alone, at once, and with gateways dying and coming back; results against a model, and every connection attempt of every process (audit events) "
        "against what its host may reach; distinct = (operation, from, to, hops); all non-trivial")
WAIT = 60


class Act(xo.StatelessActor):
    def __init__(self, v=0):
        super().__init__()
        self.v = v
        self.log = []
        self.held = None

    def add(self, k=1):
        self.v += k
        return self.v

    def get(self):
        return self.v

    def echo(self, x, *a, **kw):
        return (x, a, kw)

    def bad(self, text):
        raise ValueError(text)

    async def slow(self, token):
        self.log.append(("begin", token))
        try:
            await asyncio.sleep(1000)
        except asyncio.CancelledError:
            self.log.append(("cancelled", token))
            raise

    def logs(self):
        return self.log

    async def wait_log(self, entry):
        while entry not in self.log:
            await asyncio.sleep(0.01)

    @xo.generator
    def count(self, n):
        for i in range(n):
            yield (self.v, i)

    @xo.extensible
    def times(self, k):
        return k * 2

    @times.batch
    def times(self, args, kwargs):
        return [self.times.bind(*a, **k)[0] * 2 for a, k in zip(args, kwargs)]

    def me(self):
        return self.ref()

    def where(self):
        return self.address

    async def hold(self, ref):
        self.held = ref

    async def use(self, op, *args):
        return await getattr(self.held, op)(*args)

    async def do(self, op, *args):
        return await OPS[op](*args)


# what is done, wherever it is done from
async def op_create(addr, uid, v, strategy=None):
    kw = {"allocate_strategy": strategy} if strategy is not None else {}
    return await xo.create_actor(Act, v, address=addr, uid=uid, **kw)


async def op_look(addr, uid):
    return await xo.actor_ref(addr, uid)


async def op_add(ref, k):
    return await ref.add(k)


async def op_get(ref):
    return await ref.get()


async def op_echo(ref, *a, **kw):
    return await ref.echo(*a, **kw)


async def op_tell(ref, k):
    await ref.add.tell(k)


async def op_bad(ref, text):
    try:
        await ref.bad(text)
    except ValueError as e:
        return "ValueError", str(e)


async def op_gen(ref, n):
    return [x async for x in await ref.count(n)]


async def op_batch(ref, ks):
    return await ref.times.batch(*[ref.times.delay(k) for k in ks])


async def op_has(ref):
    return await xo.has_actor(ref)


async def op_cancel(ref, token):
    t = asyncio.create_task(ref.slow(token))
    w = asyncio.create_task(ref.wait_log(("begin", token)))
    await w
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        how = "cancelled"
    except BaseException as e:
        how = repr(e)
    else:
        how = "returned"
    try:
        await asyncio.wait_for(ref.wait_log(("cancelled", token)), 20)
    except asyncio.TimeoutError:
        how += ", callee not"
    return how


async def op_destroy(ref):
    return await xo.destroy_actor(ref)


async def op_kill(ref, main):
    address = ref.address
    await xo.kill_actor(ref)
    await xo.wait_actor_pool_recovered(address, main)
    return await ref.get()


async def op_config(addr):
    c = await xo.get_pool_config(addr)
    return sorted(c.get_external_addresses())


async def op_raises(op, *args):
    try:
        await OPS[op](*args)
    except (ActorNotExist, ActorAlreadyExist) as e:
        return next(c.__name__ for c in (ActorNotExist, ActorAlreadyExist) if isinstance(e, c))
    return "nothing"


async def op_slow(ref, token):
    try:
        await ref.slow(token)
    except (ServerClosed, ConnectionError) as e:
        return "closed"
    return "returned"


OPS = {k[3:]: f for k, f in list(globals().items()) if k.startswith("op_")}


async def site_do(pool, op, *args):
    return await OPS[op](*args)


async def site_ask(pool, agent, op, *args):
    return await agent.do(op, *args)


class Firewall:
    """What this process (a client without a pool) may reach."""

    def __init__(self):
        self.allow = set()
        self.refused = []
        self.seen = set()
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if event == "socket.connect" and isinstance(args[1], tuple) and args[1][0].startswith("127."):
            a = f"{args[1][0]}:{args[1][1]}"
            self.seen.add(a)
            if a not in self.allow:
                self.refused.append(a)
                raise ConnectionRefusedError(f"client cannot reach {a}")


class Net:
    """Hosts in a row; who is not next to whom goes through who is between."""

    def __init__(self, ctx, rng, wall, n):
        self.ctx, self.rng, self.wall, self.n = ctx, rng, wall, n
        self.base = os.path.join(ctx.scratch, f"net{rng.randrange(1 << 30)}")
        os.mkdir(self.base)
        self.hosts = [f"127.0.0.{i + 2}" for i in range(n)]
        self.ports = [pools.free_port() for _ in range(n)]
        self.mains = [f"{h}:{p}" for h, p in zip(self.hosts, self.ports)]
        self.style = []
        self.confs = []
        self.allows = []
        for i in range(n):
            # the pool behind the own main pool, the neighbours by their main pools, the rest beyond them
            conf = {self.hosts[i]: self.mains[i]}
            left, right = (range(0, i), range(i + 1, n))
            style = rng.choice(["host", "wildcard", "address"])
            if style == "wildcard" and (i == 0 or i == n - 1):
                conf["*"] = self.mains[1 if i == 0 else n - 2]
            else:
                style = "host" if style == "wildcard" else style
                for side, near in ((left, i - 1), (right, i + 1)):
                    for j in side:
                        conf[self.hosts[j]] = self.mains[near]
                        if style == "address" and j != near:
                            conf[self.mains[j]] = self.mains[near]
            self.style.append(style)
            self.confs.append(conf)
            self.allows.append([f"{self.hosts[i]}:*"] + [self.mains[j] for j in (i - 1, i + 1) if 0 <= j < n])
        self.sites = [None] * n

    def start(self, i):
        self.sites[i] = Site(f"site{i}", self.base, self.hosts[i], self.ports[i], 2, self.confs[i], self.allows[i])
        return self.sites[i].ready()

    async def __aenter__(self):
        for i in range(self.n):
            self.start(i)
        await asyncio.gather(*(s.ready() for s in self.sites))
        # a client that reaches but the main pools
        self.wall.allow = set(self.mains)
        self.agents = []
        for i, s in enumerate(self.sites):
            await self.make_agents(i)
        return self

    async def make_agents(self, i):
        s = self.sites[i]
        agents = []
        for j in (0, 1):
            agents.append(await s.run(site_do, "create", s.addresses[j], f"agent{i}.{j}", 0))
        self.agents[i:i + 1] = [agents]

    async def __aexit__(self, *exc):
        await asyncio.gather(*(s.stop() for s in self.sites))

    def far(self, i, j):
        return abs(i - j)

    async def do(self, frm, op, *args):
        """frm: None (client) or (site, 'main' | 0 | 1: agent in main pool or sub pool)."""
        if frm is None:
            return await OPS[op](*args)
        i, how = frm
        if how == "code":
            return await self.sites[i].run(site_do, op, *args)
        return await self.sites[i].run(site_ask, self.agents[i][how], op, *args)

    def check_walls(self):
        ctx = self.ctx
        n = 0
        for name in sorted(os.listdir(self.base)):
            if name.startswith("allow"):
                continue
            with open(os.path.join(self.base, name)) as f:
                for line in f:
                    n += 1
                    if line.startswith("REFUSED"):
                        site = int(name[4:].split("-")[0])
                        ctx.violation("a process connected past its proxies", host=self.hosts[site], to=line.split()[1], hosts=self.hosts, mains=self.mains, config=self.confs[site])
        if self.wall.refused:
            ctx.violation("a client connected past the proxies of what it uses", to=self.wall.refused[0], mains=self.mains)
        ctx.count("connections_watched", n - getattr(self, "_n", 0))
        self._n = n


async def story(net, frm, dst, k, rng):
    """Everything one does with an actor, against what must come out."""
    ctx = net.ctx
    where = rng.choice([0, 1, 2])
    site = net.sites[dst]
    uid = f"a{k}"
    hops = "client" if frm is None else net.far(frm[0], dst)
    detail = dict(frm=frm, dst=dst, where=where, styles=net.style, hosts=net.hosts, mains=net.mains)
    kind = "client" if frm is None else ("code" if frm[1] == "code" else f"actor{frm[1]}")

    async def do(op, *args, want=None, frm=frm):
        try:
            r = await ctx.within(net.do(frm, op, *args), WAIT, f"{op} through proxies", **detail)
        except Exception as e:
            if type(e).__name__ in ("Hang", "Violation"):
                raise
            net.check_walls()
            ctx.violation(f"{op} through proxies raised {type(e).__name__}: {str(e)[:200]}", traceback=getattr(e, "site_traceback", "")[-1500:], **detail)
        ctx.case((op, kind, where, hops), sample=f"{op} from {frm} to host {dst} ({hops} hops)")
        ctx.count("operations")
        if want is not None:
            ctx.check(r == want, f"{op} through proxies: other result", got=r, expected=want, **detail)
        return r

    v = rng.randint(0, 1000)
    if where == 0 or frm is None or rng.random() < 0.5:
        # at the main pool, that puts it where it should be
        strategy = {0: xo.allocate_strategy.MainPool(), 1: xo.allocate_strategy.ProcessIndex(1), 2: xo.allocate_strategy.ProcessIndex(2)}[where]
        ref = await do("create", site.address, uid, v, strategy)
    else:
        ref = await do("create", site.addresses[where], uid, v)
    ctx.check(ref.address == site.addresses[where] and ref.uid == uid.encode(), "created elsewhere", ref=ref, **detail)
    if rng.random() < 0.5:
        r2 = await do("look", site.address if frm is None or rng.random() < 0.5 else site.addresses[where], uid)
        ctx.check(r2 == ref, "another reference was looked up", ref=ref, other=r2, **detail)
        ref = r2
    ops = ["add", "tell", "echo", "bad", "batch", "cancel", "has", "again", "nothing", "config"]
    if frm is not None:
        ops += ["gen", "pass", "me"]
    rng.shuffle(ops)
    for op in ops[: rng.randint(4, len(ops))]:
        if op == "add":
            d = rng.randint(1, 9)
            v += d
            await do("add", ref, d, want=v)
        elif op == "tell":
            await do("tell", ref, 7)
            v += 7
            await do("get", ref, want=v)
        elif op == "echo":
            x = rng.choice([b"x" * rng.choice([0, 10, 300_000]), list(range(50)), {"a": [1, None]}, "ü" * 1000])
            await do("echo", ref, x, 1, want=(x, (1,), {}))
            a = np.arange(rng.choice([1, 5000, 200_000]))
            got = await do("echo", ref, a)
            ctx.check(np.array_equal(got[0], a), "echo of an array through proxies: other result", **detail)
        elif op == "bad":
            text = f"no {k}"
            got = await do("bad", ref, text)
            ctx.check(got is not None and got[0] == "ValueError" and got[1].endswith(text), "an error through proxies is not what it was", got=got, **detail)
        elif op == "batch":
            ks = [rng.randint(0, 99) for _ in range(rng.randint(1, 5))]
            await do("batch", ref, ks, want=[2 * x for x in ks])
        elif op == "cancel":
            await do("cancel", ref, f"t{k}", want="cancelled")
        elif op == "has":
            await do("has", ref, want=True)
        elif op == "again":
            await do("raises", "create", ref.address if frm is not None else site.address, uid, 1, *([] if frm is not None else [xo.allocate_strategy.ProcessIndex(where)]), want="ActorAlreadyExist")
        elif op == "nothing":
            await do("raises", "look", site.address, uid + "-none", want="ActorNotExist")
        elif op == "config":
            await do("config", site.address if frm is None else site.addresses[where], want=sorted(site.addresses))
        elif op == "gen":
            n = rng.randint(0, 5)
            await do("gen", ref, n, want=[(v, i) for i in range(n)])
        elif op == "me":
            got = await do("echo", ref, ref)
            ctx.check(got[0] == ref, "a reference came back as another", got=got, **detail)
        elif op == "pass":  # another host's actor uses it
            third = rng.randrange(net.n)
            other = net.agents[third][rng.choice([0, 1])]
            await net.do(frm, "echo", other, ref)
            got = await ctx.within(net.sites[third].run(site_do, "add", ref, 1), WAIT, "using a passed reference", **detail)
            v += 1
            ctx.check(got == v, "a reference passed on leads elsewhere", got=got, expected=v, third=third, **detail)
    if where and rng.random() < 0.15 and not getattr(net, "killing", False):
        net.killing = True
    await do("get", ref, want=v)
    if rng.random() < 0.7:
        await do("destroy", ref)
        await do("has", ref, want=False)
        await do("raises", "get", ref, want="ActorNotExist")
    else:
        return ref, v
    return None


def some_from(net, rng):
    return rng.choice([None, (rng.randrange(net.n), "code"), (rng.randrange(net.n), 0), (rng.randrange(net.n), 1), (rng.randrange(net.n), 1)])


async def kill_one(net, rng, k):
    """kill_actor and recovery from afar."""
    ctx = net.ctx
    dst = rng.randrange(net.n)
    site = net.sites[dst]
    frm = rng.choice([None] + [(i, h) for i in range(net.n) if i != dst for h in ("code", 0, 1)])
    detail = dict(frm=frm, dst=dst, styles=net.style, hosts=net.hosts, mains=net.mains)
    ref = await net.do((dst, "code"), "create", site.addresses[2], f"k{k}", 40 + k)
    await net.do((dst, "code"), "add", ref, 5)
    if frm is None:
        ref = await xo.actor_ref(site.address, f"k{k}")
    try:
        got = await ctx.within(net.do(frm, "kill", ref, site.address), WAIT, "kill_actor through proxies", **detail)
    except Exception as e:
        if type(e).__name__ in ("Hang", "Violation"):
            raise
        net.check_walls()
        ctx.violation(f"killing an actor through proxies raised {type(e).__name__}: {str(e)[:200]}", traceback=getattr(e, "site_traceback", "")[-1500:], **detail)
    ctx.check(got == 40 + k, "an actor killed and recovered through proxies has another state", got=got, **detail)
    await net.do(frm, "destroy", ref)
    ctx.count("kills_and_recoveries")
    ctx.case(("kill", "client" if frm is None else frm[1], "client" if frm is None else net.far(frm[0], dst)))


async def gateway_dies(net, rng, k):
    """Who was using it is told; when it is back everything goes on."""
    ctx = net.ctx
    if net.n < 3:
        return
    g = rng.randrange(1, net.n - 1)
    i, j = rng.choice([(g - 1, g + 1), (g + 1, g - 1), (0, net.n - 1)])
    detail = dict(gateway=g, frm=i, dst=j, styles=net.style)
    how = rng.choice(["code", 0, 1])
    site = net.sites[j]
    ref = await net.do((j, "code"), "create", site.addresses[rng.choice([0, 1])], f"g{k}", 3)
    t = asyncio.ensure_future(net.do((i, how), "slow", ref, f"g{k}"))
    await net.do((j, "code"), "echo", ref, 1)
    # the call has begun over there
    await ctx.within(_begun(net, j, ref, f"g{k}"), WAIT, "a call through proxies to begin", **detail)
    os.kill(net.sites[g].process.pid, signal.SIGKILL)
    got = await ctx.within(t, WAIT, "a call whose gateway died", **detail)
    ctx.check(got == "closed", "a call whose gateway died did not fail as closed", got=got, **detail)
    # those who do not need it go on
    ctx.check(await net.do((j, "code"), "add", ref, 1) == 4, "a host was harmed by the death of a gateway", **detail)
    ctx.phase('gateway ends')
    net.sites[g].process.join(20)
    for _ in range(100):  # its sub processes end by themselves
        if not any(_listening(a) for a in net.sites[g].addresses):
            break
        await asyncio.sleep(0.1)
    ctx.phase('gateway comes back')
    await ctx.within(net.start(g), WAIT, "the gateway to come back", **detail)
    await net.make_agents(g)
    ctx.phase('gateway used again')
    try:
        got = await ctx.within(net.do((i, how), "add", ref, 1), WAIT, "a call when the gateway is back", **detail)
    except Exception as e:
        if type(e).__name__ in ("Hang", "Violation"):
            raise
        # the first may still meet what is left of the old connections
        ctx.count("first_call_after_return_failed")
        got = await ctx.within(net.do((i, how), "add", ref, 1), WAIT, "a call when the gateway is back", **detail)
    ctx.check(got == 5, "a call through a gateway that came back: other result", got=got, **detail)
    await net.do((j, "code"), "destroy", ref)
    ctx.count("gateways_died")
    ctx.case(("gateway dies", i < j, how, net.n))


async def _begun(net, j, ref, token):
    await net.sites[j].run(_wait_log, ref, ("begin", token))


async def _wait_log(pool, ref, entry):
    await ref.wait_log(entry)


def _listening(a):
    import socket

    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind((a.split(":")[0], int(a.split(":")[1])))
        return False
    except OSError:
        return True
    finally:
        s.close()


def lookups(ctx, rng):
    """The proxy of an address: that given for it, else for its host, else for all; and so on from there."""
    from xoscar.backends.router import Router

    for _ in range(ctx.n(300, 3000)):
        hosts = [f"10.0.0.{i}" for i in range(1, rng.randint(3, 6))] + ["gate.way"]
        addrs = [f"{h}:{p}" for h in hosts for p in (1, 2)]
        conf = {k: rng.choice(addrs) for k in rng.sample(addrs + hosts + ["*"], rng.randint(0, 6))}
        router = Router([], None, proxy_config=dict(conf))

        def nxt(a):
            for k in (a, a.split(":")[0], "*"):
                if k in conf and conf[k] != a:
                    return conf[k]

        for a in addrs:
            want = []
            while (b := nxt(want[-1] if want else a)) is not None and b not in want:
                want.append(b)
            ctx.check(router.get_proxy(a) == nxt(a), "an address has another proxy than configured", address=a, config=conf, got=router.get_proxy(a), want=nxt(a))
            if b is None:  # or they lead in circles
                got = router.get_proxies(a)
                ctx.check((got or []) == want, "an address has other proxies than configured", address=a, config=conf, got=got, want=want)
                ctx.case(("lookup", len(want), a in conf, a.split(":")[0] in conf, "*" in conf), nontrivial=bool(want))
        ctx.count("lookups", len(addrs))


async def run(ctx):
    rng = ctx.rng
    lookups(ctx, random.Random(f"lookups/{ctx.seed}"))
    wall = Firewall()
    k = 0
    rounds = 0
    while True:
        n = [4, 3, 2][rounds % 3] if ctx.quick else rng.choice([2, 3, 3, 4])
        rounds += 1
        net = Net(ctx, rng, wall, n)
        ctx.phase(f"hosts {n} {net.style}")
        async with net:
            # all pairs, one by one
            for i in range(n):
                for j in range(n):
                    if ctx.quick and abs(i - j) != n - 1 and rng.random() < 0.5:
                        continue
                    k += 1
                    frm = rng.choice([(i, "code"), (i, 0), (i, 1)])
                    ctx.phase(f"story {k} {frm}>{j}")
                    await story(net, frm, j, k, random.Random(f"{ctx.seed}/{k}"))
            # at once, from anywhere
            ctx.phase("at once")
            jobs = []
            for _ in range(ctx.n(8, 16)):
                k += 1
                jobs.append(story(net, some_from(net, rng), rng.randrange(n), k, random.Random(f"{ctx.seed}/{k}")))
            left = [x for x in await asyncio.gather(*jobs) if x]
            for ref, v in left:
                i = rng.randrange(n)
                got = await ctx.within(net.do((i, "code"), "get", ref), WAIT, "a call to an actor left over")
                ctx.check(got == v, "an actor behind proxies was changed by what was done to others", got=got, expected=v, ref=ref)
            net.check_walls()
            ctx.phase("kill")
            k += 1
            await kill_one(net, rng, k)
            net.check_walls()
            if n >= 3 and (rounds == 1 or not ctx.quick):
                ctx.phase("gateway dies")
                k += 1
                await gateway_dies(net, rng, k)
                k += 1
                await story(net, (0, 1), n - 1, k, random.Random(f"{ctx.seed}/{k}"))
            net.check_walls()
        wall.allow = set()
        if not ctx.left(12, 240) and rounds >= 2:
            break
