"""C17: pools that stop, fail to start or lose their main process leave nothing behind."""
import asyncio
import contextlib
import gc
import json
import os
import signal
import socket
import stat
import sys

import xoscar as xo

from .. import crashops as co
from .. import pools

ID = "C17"
LEVEL = "fault_enumeration"
RULE = ("pools of random layouts (processes, schemes, labels) started, used by clients, other pools and actors, and ended in every way (stop, stop twice, context manager, "
        "stop with calls pending, with frozen or dead sub processes, during a recovery, start that fails or is cancelled, main process killed); afterwards processes, child "
        "processes, listening sockets, descriptors, unix socket files, shared memory and tasks are compared with before; distinct = (way to end, layout); non-trivial = at least one process was started")
WAIT = 60


def stats():
    """pid -> (parent, state, start) of all processes."""
    res = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            with contextlib.suppress(OSError):
                with open(f"/proc/{d}/stat") as f:
                    v = f.read().rpartition(")")[2].split()
                res[int(d)] = (int(v[1]), v[0], v[19])
    return res


def children(root=None):
    """(pid, start) of what descends from a process (this one)."""
    st = stats()
    kids = {}
    for pid, (parent, _, _) in st.items():
        kids.setdefault(parent, []).append(pid)
    res, todo = set(), [root or os.getpid()]
    while todo:
        for c in kids.get(todo.pop(), ()):
            res.add((c, st[c][2]))
            todo.append(c)
    return res


def still_there(procs):
    """Those that run; a zombie ran to its end, whoever is to collect it."""
    st = stats()
    return {(p, s) for p, s in procs if p in st and st[p][2] == s and st[p][1] not in "ZX"}


def listening(kids):
    """Listening sockets of this process and its children."""
    inodes = {}
    for pid in [os.getpid(), *(p for p, _ in kids)]:
        with contextlib.suppress(OSError):
            for f in os.listdir(f"/proc/{pid}/fd"):
                with contextlib.suppress(OSError):
                    t = os.readlink(f"/proc/{pid}/fd/{f}")
                    if t.startswith("socket:["):
                        inodes[t[8:-1]] = pid
    res = set()
    for n in ("tcp", "tcp6"):
        with contextlib.suppress(OSError), open(f"/proc/net/{n}") as f:
            for line in f:
                v = line.split()
                if v[3] == "0A" and v[9] in inodes:
                    res.add((inodes[v[9]], v[1]))
    return res


def fds():
    res = {}
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            res[f] = os.readlink(f"/proc/self/fd/{f}")
    return res


def shms():
    return {f for f in os.listdir("/dev/shm") if f.startswith(("psm_", "sem.", "pym-"))}


def socket_files():
    """Of unix sockets of this check's pools."""
    res = set()
    for d, _, files in os.walk(os.environ["XOSCAR_DIR"]):
        for f in files:
            with contextlib.suppress(OSError):
                if stat.S_ISSOCK(os.lstat(os.path.join(d, f)).st_mode):
                    res.add(f)
    return res


def tasks():
    return {t for t in asyncio.all_tasks() if not t.done()}


class Before:
    def __init__(self):
        gc.collect()
        self.children = children()
        self.listening, self.fds, self.shm, self.tasks = listening(self.children), fds(), shms(), tasks()
        self.files = socket_files()

    async def leftovers(self, files=True):
        """What is there now and was not before; given time to settle."""
        for i in range(300):
            gc.collect()
            left = {}
            kids = children()
            if c := kids - self.children:
                left["processes"] = [p for p, _ in c]
            if c := listening(kids) - self.listening:
                left["listening"] = [str(x) for x in c]
            if c := shms() - self.shm:
                left["shared memory"] = sorted(c)
            if files and (c := socket_files() - self.files):
                left["socket files"] = sorted(c)
            if c := tasks() - self.tasks:
                left["tasks"] = [f"{t.get_coro().__qualname__}" for t in c]
            f = fds()
            if len(f) > len(self.fds):
                left["descriptors"] = sorted(v for k, v in f.items() if self.fds.get(k) != v)
            if not left:
                return None
            await asyncio.sleep(0.05)
        return left


async def bindable(addr):
    for _ in range(60):
        if _bindable(addr):
            return True
        await asyncio.sleep(0.1)
    return False


def _bindable(addr):
    host, port = addr.split("://")[-1].rsplit(":", 1)
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind((host, int(port)))
        s.listen()
        return True
    except OSError:
        return False
    finally:
        s.close()


async def busy(ctx, rng, pool, n):
    """Actors with calls pending in every process; returns what waits."""
    waits = []
    for a in pools.addresses(pool):
        v = await xo.create_actor(co.Victim, address=a, uid=f"v{n}")
        lo = await xo.create_actor(co.Locked, address=a, uid=f"l{n}")
        ctx.check(await ctx.within(v.echo(n), WAIT, "a call") == n, "wrong answer")
        if a == pool.external_address:
            # runs on in this very process, which does not end; but it is answered or fails
            for k in rng.sample(["wait", "batch", "ext", "told"], rng.randint(0, 3)):
                waits.append((k, "here", asyncio.ensure_future(co.outcome(dict(wait=lambda: v.wait(0.4), batch=lambda: v.ext.batch(v.ext.delay(0.3), v.ext.delay(0.4)),
                                                                               ext=lambda: v.ext(0.3), told=lambda: v.wait.tell(0.3))[k]()))))
            continue
        for k in rng.sample(co.KINDS, rng.randint(0, 3)):
            waits.append((k, a, asyncio.ensure_future(co.one(k, v, lo))))
    await asyncio.sleep(rng.choice([0, 0.02, 0.1]))
    return waits


HOWS = ["stop", "stop", "twice", "with", "frozen", "dead", "recovering", "port in use", "sub port in use", "bad module", "cancelled start", "raising use", "concurrent stop"]


async def one(ctx, rng, how, n):
    nproc = rng.choice([0, 1, 2, 3]) if how in ("stop", "twice", "with", "raising use", "concurrent stop", "port in use", "bad module") else rng.choice([1, 2, 3])
    before = Before()
    addrs, waits = [], []
    detail = dict(how=how, n_process=nproc)
    args = dict(auto_recover=rng.choice(["actor", "process", False]) if how != "recovering" else "actor")
    if how in ("stop", "twice", "concurrent stop", "frozen", "dead", "recovering"):
        pool = await pools.start(nproc, **args)
        addrs = pools.addresses(pool)
        waits = await busy(ctx, rng, pool, n)
        if how == "frozen":
            os.kill(rng.choice(list(pool.sub_processes.values())).pid, signal.SIGSTOP)
        elif how in ("dead", "recovering"):
            p = rng.choice(list(pool.sub_processes.values()))
            os.kill(p.pid, signal.SIGKILL)
            if how == "recovering":
                # stop at any moment of the recovery
                await asyncio.sleep(rng.uniform(0, 1.4))
            else:
                await asyncio.sleep(rng.choice([0, 0.01, 0.1]))
        if how == "concurrent stop":
            await ctx.within(asyncio.gather(pool.stop(), pool.stop(), return_exceptions=True), WAIT, "stopping a pool")
        else:
            await ctx.within(pool.stop(), WAIT, "stopping a pool", **detail)
        if how == "twice":
            await ctx.within(pool.stop(), WAIT, "stopping a stopped pool", **detail)
        await ctx.within(pool.join(), WAIT, "joining a stopped pool", **detail)
        ctx.check(pool.stopped, "a stopped pool does not say so", **detail)
    elif how == "with":
        async with await pools.start(nproc, **args) as pool:
            addrs = pools.addresses(pool)
            waits = await busy(ctx, rng, pool, n)
    elif how == "raising use":
        with contextlib.suppress(ZeroDivisionError):
            async with await pools.start(nproc, **args) as pool:
                addrs = pools.addresses(pool)
                waits = await busy(ctx, rng, pool, n)
                1 / 0
    elif how in ("port in use", "sub port in use"):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        s.listen()
        try:
            port = s.getsockname()[1]
            try:
                if how == "port in use":
                    pool = await ctx.within(xo.create_actor_pool(f"127.0.0.1:{port}", n_process=nproc, **args), WAIT, "a start that fails", **detail)
                else:
                    ports = [0] * nproc
                    ports[rng.randrange(nproc)] = port
                    pool = await ctx.within(xo.create_actor_pool("127.0.0.1:0", n_process=nproc, ports=ports, **args), WAIT, "a start that fails", **detail)
            except OSError:
                pass
            else:
                await pool.stop()
                ctx.violation("a pool was started on a port that is in use", **detail)
        finally:
            s.close()
    elif how == "bad module":
        try:
            await ctx.within(xo.create_actor_pool("127.0.0.1", n_process=nproc, modules=["no_such_module_at_all"], **args), WAIT, "a start that fails", **detail)
        except (ImportError, OSError):
            pass
        else:
            ctx.violation("a pool was started though a module to import does not exist", **detail)
    elif how == "cancelled start":
        t = asyncio.ensure_future(xo.create_actor_pool("127.0.0.1", n_process=nproc, **args))
        await asyncio.sleep(rng.uniform(0, 1.6))
        t.cancel()
        try:
            pool = await ctx.within(t, WAIT, "a start that is cancelled", **detail)
        except asyncio.CancelledError:
            pass
        else:
            addrs = pools.addresses(pool)
            await pool.stop()
    for k, a, w in waits:
        e = await ctx.within(w, WAIT, "what waits for a pool that stopped", kind=k, **detail)
        # an actor may still have answered while the pool was stopping; but then it answered
        ctx.check(e[0] == "closed" or (a == "here" and e[0] == "ok") or (how == "recovering" and e[0] == "other"), "what waited for a pool that stopped did not fail as closed", kind=k, got=e, **detail)
        ctx.count("waits_ended")
    del waits
    # a process that was killed cannot remove its own
    left = await before.leftovers(files=how in ("stop", "twice", "with", "raising use", "concurrent stop"))
    ctx.check(left is None, "a pool that ended left something behind", left=left, **detail)
    for a in addrs:
        ok = await bindable(a)
        ctx.check(ok, "an address of a stopped pool cannot be used again", address=a, **detail)
    ctx.case((how, nproc, args["auto_recover"]), nontrivial=nproc > 0, sample=detail)
    ctx.count("ended_" + how.replace(" ", "_"))


async def again(ctx, rng):
    """The same address, pool after pool."""
    port = pools.free_port()
    last = None
    for i in range(ctx.n(2, 6)):
        pool = await ctx.within(xo.create_actor_pool(f"127.0.0.1:{port}", n_process=1), WAIT, "a pool at the address of a stopped one")
        try:
            if last is not None:
                has = await ctx.within(xo.has_actor(xo.core.ActorRef(f"127.0.0.1:{port}", b"x")), WAIT, "has_actor")
                ctx.check(has is False, "an actor of a stopped pool is there in the next one")
            last = await xo.create_actor(co.Victim, address=f"127.0.0.1:{port}", uid="x")
            ctx.check(await ctx.within(last.echo(i), WAIT, "a call") == i, "wrong answer")
        finally:
            await pool.stop()
        ctx.count("restarted_at_same_address")


async def elsewhere(ctx, rng):
    """What used to be the addresses of a pool of this process are those of another process."""
    pool = await pools.start(2)
    addrs = pools.addresses(pool)
    for i, a in enumerate(addrs):
        v = await xo.create_actor(co.Victim, address=a, uid=f"v{i}")
        ctx.check(await ctx.within(v.echo(i), WAIT, "a call") == i, "wrong answer")
    await ctx.within(pool.stop(), WAIT, "stopping a pool")
    for i, a in enumerate(rng.sample(addrs, ctx.n(2, 3))):
        ctx.check(await bindable(a), "an address of a stopped pool cannot be used again", address=a)
        p = await asyncio.create_subprocess_exec(sys.executable, "-m", "vf.zeroserve", json.dumps(dict(address=a, n=i % 2, labels=None)), stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE)
        try:
            there = json.loads(await ctx.within(p.stdout.readline(), WAIT, "a pool of another process at the address of a stopped one"))
            for at in there:
                for u in (f"v{addrs.index(a)}", "new"):
                    has = await ctx.within(xo.has_actor(xo.core.ActorRef(at, u.encode())), WAIT, "has_actor")
                    ctx.check(has is False, "an actor of a stopped pool is there in the pool of another process", uid=u)
                ref = await ctx.within(xo.create_actor(co.Victim, address=at, uid="new"), WAIT, "create_actor at a pool of another process at the address of a stopped one")
                ctx.check(await ctx.within(ref.echo(i), WAIT, "a call to a pool of another process at the address of a stopped one") == i, "wrong answer")
                pid = await ctx.within(ref.pid(), WAIT, "a call")
                ctx.check(pid != os.getpid() and (at != a or pid == p.pid), "an actor is in another process than that of its pool", got=pid, want=p.pid)
            ctx.case(("elsewhere", addrs.index(a) > 0, len(there)))
            ctx.count("address_taken_by_another_process")
        finally:
            p.stdin.close()
            try:
                await asyncio.wait_for(p.wait(), 30)
            except asyncio.TimeoutError:
                p.kill()


async def orphans(ctx, rng, ways):
    """The main process dies: its sub processes end by themselves."""
    for how in ways:
        p, addrs = await co.serve(rng.randint(1, 3))
        kids = children(p.pid)
        ctx.check(len(kids) >= len(addrs) - 1, "processes missing")
        others = []
        for i, a in enumerate(addrs):
            v, lo = await xo.actor_ref(a, f"v{i}"), await xo.actor_ref(a, f"l{i}")
            others.append(asyncio.ensure_future(co.one("wait", v, lo)))
        await asyncio.sleep(0.1)
        os.kill(p.pid, dict(killed=signal.SIGKILL, terminated=signal.SIGTERM, interrupted=signal.SIGINT)[how])
        await ctx.within(p.wait(), WAIT, "the end of the main process", how=how)
        for i in range(800):
            alive = still_there(kids)
            if not alive:
                break
            await asyncio.sleep(0.05)
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        ctx.check(not alive, "sub processes outlive their main process", how=how, alive=[str(a) for a in alive])
        for w in others:
            e = await ctx.within(w, WAIT, "what waits for a pool that died")
            # interrupted, it cancels the calls under way, and says so if it still can
            ctx.check(e[0] == "closed" or how == "interrupted" and "CancelledError" in e[1], "what waited for a pool that died did not fail as closed", got=e)
        for a in addrs:
            ctx.check(await bindable(a), "an address of a dead pool cannot be used again", address=a)
        ctx.case(("main " + how, len(kids)), sample=dict(how="main " + how))
        ctx.count("main_processes_died")


async def run(ctx):

    rng = ctx.rng
    # what the first pool brings in for good (thread pools, loop internals) is not a leftover
    async with pools.pool(n_process=1) as p:
        w = await busy(ctx, rng, p, 0)
    for x in w:
        await x[-1]
    del w
    await again(ctx, rng)
    await elsewhere(ctx, rng)
    n = 0
    todo = HOWS[1:]
    rng.shuffle(todo)
    ways = ["killed", "terminated", "interrupted"]
    rng.shuffle(ways)
    while n < len(todo) or ctx.left(14, 400):
        ctx.phase(f"case {n}")
        await one(ctx, rng, todo[n] if n < len(todo) else rng.choice(HOWS), n + 1)
        n += 1
        if ctx.quick and n == len(todo):
            break
    await orphans(ctx, rng, ways[:1] if ctx.quick else ways * 3)
