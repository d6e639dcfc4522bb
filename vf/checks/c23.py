"""C23: the rendezvous store (C++) is one consistent table for all its clients, whoever fails."""
import asyncio
import os
import re
import signal
import socket
import struct
import time

from .. import storeops
from ..storeops import Driver, hx

ID = "C23"
LEVEL = "fault_enumeration"
RULE = ("random histories of store operations from threads of several processes, waits for keys made in every way, watches, clients killed, frozen and speaking nonsense, timeouts, ends of servers, shared servers, joins, "
        "with the store built once with thread sanitizer and once with address and undefined-behaviour sanitizers; distinct = (scenario, order of completions); non-trivial = operations overlapped")
WAIT = 60


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.drivers = []
        self.exe = {}
        self.leaks = False
        self.variant = None
        self.bg = 0

    async def driver(self):
        d = await Driver.start(self.exe[self.variant], self.ctx.scratch, self.leaks)
        self.drivers.append(d)
        return d

    async def server(self, d=None, port=0, workers=-1, wait=0, timeout=30000, sid="s0", multi=0):
        d = d or await self.driver()
        r = await self.do(d, "m", "open", sid, "server", "127.0.0.1", port, timeout, workers, wait, multi)
        return d, int(r.value[0])

    async def client(self, port, d=None, sid="c0", timeout=30000, workers=-1, wait=0, thread="m"):
        d = d or await self.driver()
        await self.do(d, thread, "open", sid, "client", "127.0.0.1", port, timeout, workers, wait, 0)
        return d

    async def do(self, d, thread, *words):
        return await self.good(d, d.put(thread, *words)[0])

    async def good(self, d, fut):
        """An operation that must succeed."""
        r = await self.ctx.within(fut, WAIT, "an operation of the store")
        if r.status != "ok":
            await self.bad(d, r)
        return r

    async def bad(self, d, r):
        why = ""
        if r.status == "gone":
            rc = await self.ctx.within(d.end(), WAIT, "a process that died")
            why = f"; the process ended with {rc}: {d.reports()[:2500]}"
        await asyncio.sleep(1)
        for o in self.drivers:
            if o.proc.returncode not in (None, 0) and not o.killed and o is not d:
                why += f"; another process ended with {o.proc.returncode}: {o.reports()[:2500]}"
        self.ctx.check(r.status != "harness", "harness: wrong operation", operation=list(r.op), value=text(r))
        self.ctx.violation("an operation of the store failed", operation=[str(x)[:80] for x in r.op], status=r.status, value=text(r) + why)

    async def finish(self):
        """Ends all processes: no report of any sanitizer, no failure."""
        for d in self.drivers:
            rc = await self.ctx.within(d.end(), WAIT, "a process with stores ends")
            rep = d.reports()
            if d.killed:
                rep = re.sub(r"(?s).*", "", rep) if "WARNING: ThreadSanitizer" not in rep and "ERROR:" not in rep else rep
            elif rc != 0:
                self.ctx.violation("a process that used stores failed", status=rc, report=rep[:3000], variant=self.variant)
            self.ctx.check("Sanitizer" not in rep and "runtime error" not in rep, "a sanitizer reported", report=rep[:3000], variant=self.variant)
            self.ctx.count("processes")
            self.ctx.count("operations", len(d.all))
        self.drivers = []


def text(r):
    return " ".join(bytes.fromhex(x[1:]).decode("utf-8", "replace") if x.startswith("x") else x for x in (r.value or []))[:600]


def data(rng):
    n = rng.choice([0, 1, 3, 3, 10, 40, 200, 1439, 1441, 6000, 70000])
    return hx(bytes(rng.randrange(256) for _ in range(min(n, 40))) * max(1, n // 40) if n > 40 else bytes(rng.randrange(256) for _ in range(n)))


def name(rng, s):
    return s + rng.choice(["", "", "/x", "é", "-" * 1500])


def order_key(reps):
    done = sorted((r for r in reps if r.t1), key=lambda r: r.t1)
    names = {}
    return tuple((names.setdefault(r.who, len(names)), r.op[0]) for r in done)


# --- histories -------------------------------------------------------------------
async def histories(ctx, env, rng, kill):
    ctx.phase("history" + (" with a death" if kill else ""))
    sd, port = await env.server()
    counters = [name(rng, f"n{i}") for i in range(2)]
    blobs = [name(rng, f"b{i}") for i in range(2)]
    perm = [name(rng, f"p{i}") for i in range(2)]
    total = name(rng, "total")
    small = [data(rng) for _ in range(3)] + ["x"]
    every = counters + blobs + perm + [total]

    def one(sid):
        k = rng.choice(["add", "add", "addp", "set", "set", "cas", "cas", "cas", "del", "del", "append", "get", "gget", "mget", "mset", "check", "check", "num", "gset", "getn", "wait"])
        if k == "add":
            return "add", sid, rng.choice(counters), rng.choice([1, -1, 5, 2**40, 0])
        if k == "addp":
            return "add", sid, total, rng.choice([1, -3, 10**12])
        if k in ("set", "gset"):
            return k, sid, rng.choice(blobs + perm), rng.choice(small)
        if k == "cas":
            return "cas", sid, rng.choice(blobs), rng.choice(small), rng.choice(small)
        if k == "del":
            return "del", sid, rng.choice(blobs + counters)
        if k == "append":
            return "append", sid, rng.choice(blobs + perm), rng.choice([x for x in small if len(x) < 3000])
        if k in ("get", "gget"):
            return k, sid, rng.choice(perm)
        if k == "getn":
            return "get", sid, total
        if k == "mget":
            return ("mget", sid, *rng.sample(perm + [total], rng.randint(1, 3)))
        if k == "mset":
            ks = rng.sample(blobs + perm, rng.randint(1, 3))
            return ("mset", sid, *[x for q in ks for x in (q, rng.choice(small))])
        if k == "check":
            return ("check", sid, *rng.sample(every, rng.randint(1, 3)))
        if k == "wait":
            return ("wait", sid, rng.choice([-1, 5000]), *rng.sample(perm + [total], rng.randint(1, 2)))
        return "num", sid

    init = {}
    for p in perm:
        v = rng.choice(small)
        await env.do(sd, "m", "set", "s0", p, v)
        init[p] = v
    await env.do(sd, "m", "add", "s0", total, 7)
    init[total] = hx(b"7")
    ds = [sd]
    threads, conns, plan = [], [], []
    for i in range(rng.randint(1, 3)):
        d = await env.client(port)
        ds.append(d)
    for d in ds:
        sids = ["s0"] if d is sd else ["c0"]
        if rng.random() < 0.4 and d is not sd:
            await env.client(port, d, "c1")
            sids.append("c1")
        d.hold()
        for sid in sids:
            for t in range(rng.choice([1, 1, 2])):
                ops = []
                th = f"{sid}.{t}"
                for _ in range(rng.randint(3, 9)):
                    if rng.random() < 0.2:
                        d.put(th, "sleep", rng.choice([100, 1000, 5000]))
                    ops.append(d.put(th, *one(sid))[0])
                threads.append(ops)
                conns.append((d.name, sid))
                plan.append(d)
    for d in ds:
        d.go()
    dead = None
    if kill:
        dead = rng.choice(ds[1:])
        await asyncio.sleep(rng.choice([0, 0.0005, 0.002, 0.005]))
        dead.kill()
    reps = []
    for d, ops in zip(plan, threads):
        if d is dead:
            reps.append([await ctx.within(f, WAIT, "operations of a killed process end") for f in ops])
        else:
            reps.append([await env.good(d, f) for f in ops])
    # what is there in the end, seen by one that comes now
    last = await env.client(port)
    fin = {}
    for k in every:
        if (await env.do(last, "m", "check", "c0", k)).value == ["1"]:
            fin[k] = (await env.do(last, "m", "get", "c0", k)).value[0]
    n = int((await env.do(last, "m", "num", "c0")).value[0])
    ctx.check(n == len(fin), "getNumKeys counts the keys there are", count=n, keys=len(fin))
    ok, steps = storeops.linearize(reps, conns, init, fin)
    ctx.count("linearization_steps", steps)
    if ok is None:
        ctx.count("histories_not_decided")
    ctx.check(ok is not False, "no order of the operations explains what they gave", history=[[(r.t0, r.t1, r.status, [str(x)[:30] for x in r.op], [v[:30] for v in r.value or []]) for r in t] for t in reps],
              final={k[:20]: v[:40] for k, v in fin.items()})
    flat = [r for t in reps for r in t]
    ov = any(a.t0 and b.t0 and a.t1 and b.t1 and a is not b and a.t0 < b.t1 and b.t0 < a.t1 for a in flat for b in flat)
    ctx.case(("history", env.variant, order_key(flat)), nontrivial=ov)
    await env.finish()


# --- waiting ---------------------------------------------------------------------
MAKERS = ["set", "gset", "add", "append", "mset", "cas"]


async def make(env, d, sid, key, how):
    w = dict(set=("set", sid, key, "x01"), gset=("gset", sid, key, "x02"), add=("add", sid, key, 1), append=("append", sid, key, "x03"), mset=("mset", sid, "other", "x", key, "x04"),
             cas=("cas", sid, key, "x", "x05"))[how]
    await env.do(d, "m", *w)
    r = await env.do(d, "m", "check", sid, key)
    env.ctx.check(r.value == ["1"], "a key that was made is there", how=how)


async def waiting(ctx, env, rng, faults):
    ctx.phase("waiting" + (" with deaths" if faults else ""))
    sd, port = await env.server()
    keys = [name(rng, f"k{i}") for i in range(6)]
    hows = {k: MAKERS[(env.bg + i) % len(MAKERS)] for i, k in enumerate(keys)}
    env.bg += 1
    waiters = []

    def waiter(d, sid):
        ks = rng.sample(keys, rng.randint(1, 3))
        kind = rng.choice(["wait", "wait", "get", "mget", "mget", "gget"])
        if kind in ("get", "gget"):
            ks = ks[:1]
        if kind == "wait" and rng.random() < 0.2:
            ks.append(ks[0])
        op = ("wait", sid, rng.choice([-1, 50000]), *ks) if kind == "wait" else (kind, sid, *ks)
        fut, begun = d.put(sid, *op)
        waiters.append((d, fut, begun, ks, op))

    for i in range(rng.randint(2, 5)):
        d = await env.client(port)
        for t in range(rng.choice([1, 1, 2])):
            await env.client(port, d, f"w{t}")
            waiter(d, f"w{t}")
    late = await env.client(port)
    for _, _, b, _, _ in waiters:
        await ctx.within(b, WAIT, "a wait begins")
    await asyncio.sleep(0.1)
    dead = set()
    if faults:
        for d in {w[0] for w in waiters}:
            if rng.random() < 0.4:
                d.kill()
                dead.add(d)
        for d in dead:
            await ctx.within(d.proc.wait(), WAIT, "a killed process dies")
        # others get the descriptors they had
        fresh = [await env.client(port) for _ in range(len(dead))]
    makers = [(sd, "s0"), (await env.client(port), "c0")]
    if faults:
        makers += [(f, "c0") for f in fresh]
    made = {}
    order = keys[:]
    rng.shuffle(order)
    for k in order:
        d, sid = rng.choice(makers)
        t = time.monotonic_ns()
        for w, fut, _, ks, op in waiters:
            if w not in dead and fut.done():
                ctx.check(all(x in made for x in ks), "a wait ends only when all its keys are there", operation=[str(x)[:30] for x in op], made=sorted(made), status=fut.result().status, value=text(fut.result()))
        await make(env, d, sid, k, hows[k])
        made[k] = t
        if rng.random() < 0.5:
            # some of its keys may be there
            await env.client(port, late, f"l{len(made)}")
            waiter(late, f"l{len(made)}")
            await ctx.within(waiters[-1][2], WAIT, "a wait begins")
            await asyncio.sleep(rng.choice([0, 0.02]))
        for w, fut, _, ks, op in waiters:
            if w not in dead and all(x in made for x in ks):
                done, _ = await asyncio.wait([fut], timeout=25)
                ctx.check(done, "a wait ends when its keys are there", operation=[str(x)[:30] for x in op], ways={x[:20]: hows[x] for x in ks})
                r = await env.good(w, fut)
                ctx.check(r.t1 > max(made[x] for x in ks), "a wait ends only when all its keys are there", operation=[str(x)[:30] for x in op])
        if faults:
            # nobody gets an answer meant for one that died
            for f in fresh:
                r = await env.do(f, "m", "add", "c0", "mine" + f.name, 1)
                ctx.check(int(r.value[0]) >= 1, "an answer")
    for f, n in ([(f, len(order)) for f in fresh] if faults else []):
        r = await env.do(f, "m", "add", "c0", "mine" + f.name, 0)
        ctx.check(int(r.value[0]) == n, "each client gets its own answers", got=r.value, expected=n)
    ctx.case(("waiting", env.variant, faults, tuple(sorted((op[0], len(ks), hows[ks[0]]) for _, _, _, ks, op in waiters))))
    await env.finish()


# --- watching --------------------------------------------------------------------
async def watching(ctx, env, rng, faults):
    ctx.phase("watching" + (" with ends" if faults else ""))
    sd, port = await env.server()
    keys = ["wa", "wb", name(rng, "wc")]
    watchers = []
    ds = [sd] + [await env.client(port) for _ in range(rng.randint(1, 3))]
    for i, d in enumerate(ds):
        sid = "s0" if d is sd else "c0"
        for k in rng.sample(keys, rng.randint(1, 3)):
            tag = f"{i}.{keys.index(k)}"
            await env.do(d, "m", "watch", sid, k, tag)
            watchers.append((d, k, tag))
    gone = []
    if faults:
        for d in ds[1:]:
            if rng.random() < 0.6 or not gone:
                gone.append(d)
        for d in gone:
            if rng.random() < 0.5:
                d.kill()
            else:
                d.proc.stdin.close()
            await ctx.within(d.proc.wait(), WAIT, "a watching process ends")
        ds = [d for d in ds if d not in gone] + [await env.client(port) for _ in range(len(gone))]
        watchers = [w for w in watchers if w[0] not in gone]
    # every value is different, so that what was seen says what was done
    n = [0]
    threads, conns, plan = [], [], []

    def value():
        n[0] += 1
        return hx(b"%d" % n[0] + b"." * rng.choice([0, 5, 2000]))

    for d in ds:
        sid = "s0" if d is sd else "c0"
        d.hold()
        for t in range(rng.choice([1, 2])):
            ops = []
            for _ in range(rng.randint(2, 6)):
                k = rng.choice(keys)
                how = rng.choice(["set", "set", "cas", "del", "mset", "late"])
                if how == "set":
                    op = ("set", sid, k, value())
                elif how == "cas":
                    op = ("cas", sid, k, "x", value())
                elif how == "del":
                    op = ("del", sid, k)
                elif how == "mset":
                    op = ("mset", sid, *[x for q in rng.sample(keys, 2) for x in (q, value())])
                else:
                    op = ("check", sid, k)
                ops.append(d.put(f"t{t}", *op)[0])
            ops.append(d.put(f"t{t}", "num", sid)[0])
            threads.append(ops)
            conns.append((d.name, sid))
            plan.append(d)
    for d in ds:
        d.go()
    reps = []
    for d, ops in zip(plan, threads):
        reps.append([await env.good(d, f) for f in ops])
    fin = {}
    for k in keys:
        if (await env.do(sd, "m", "check", "s0", k)).value == ["1"]:
            fin[k] = (await env.do(sd, "m", "get", "s0", k)).value[0]
        # the last thing each watcher sees
        await env.do(sd, "m", "set", "s0", k, hx(b"the end"))
    seqs = {}
    for d, k, tag in watchers:
        for _ in range(int(WAIT / 0.05)):
            ev = d.events.get(tag, [])
            if ev and ev[-1][2] == hx(b"the end"):
                break
            await asyncio.sleep(0.05)
        ctx.check(ev and ev[-1][2] == hx(b"the end"), "a watcher sees every change of its key", seen=[(a[:20], b[:20]) for _, a, b in ev], watcher=tag)
        seqs.setdefault(k, []).append((tag, [(a, b) for _, a, b in ev]))
        ctx.count("notifications", len(ev))
    flat = [r for t in reps for r in t]
    for k, ss in seqs.items():
        first = ss[0][1]
        for tag, s in ss[1:]:
            ctx.check(s == first, "all watchers see the same changes of a key", one=[(a[:20], b[:20]) for a, b in first], other=[(a[:20], b[:20]) for a, b in s])
        prev = "-"
        for a, b in first:
            ctx.check(a == prev, "each change begins where the one before ended", change=(a[:20], b[:20]), before=prev[:20])
            prev = b
        ctx.check(first[-1][0] == fin.get(k, "-"), "the last change before the end left what was there", seen=first[-1][0][:20], there=fin.get(k, "-")[:20])
        news = [b for _, b in first[:-1] if b != "-"]
        sure, maybe = [], []
        for r in flat:
            if r.op[0] == "set" and r.op[2] == k:
                sure.append(r.op[3])
            elif r.op[0] == "mset":
                sure += [v for q, v in zip(r.op[2::2], r.op[3::2]) if q == k]
            elif r.op[0] == "cas" and r.op[2] == k and r.value == [r.op[4]]:
                sure.append(r.op[4])
        ctx.check(sorted(news) == sorted(sure), "a watcher sees each change of its key once", seen=[x[:20] for x in news], done=[x[:20] for x in sure])
        dels = sum(1 for r in flat if r.op[0] == "del" and r.op[2] == k and r.value == ["1"])
        ctx.check(dels == sum(1 for _, b in first if b == "-"), "a watcher sees each deletion of its key once", deletions=dels, seen=[(a[:20], b[:20]) for a, b in first])
    ok, _ = storeops.linearize(reps, conns, {}, fin)
    ctx.check(ok is not False, "no order of the operations explains what they gave", history=[[(r.t0, r.t1, [str(x)[:30] for x in r.op], [v[:30] for v in r.value or []]) for r in t] for t in reps])
    ctx.case(("watching", env.variant, faults, order_key(flat)))
    await env.finish()


async def while_changing(ctx, env, rng):
    """Watches begun while changes of other keys come in."""
    ctx.phase("watching while things change")
    sd, port = await env.server()
    d = await env.client(port)
    w = await env.client(port, sid="c1")
    await env.client(port, w)
    await env.do(w, "m", "watch", "c0", "busy", "busy")
    n = 40
    changes = [sd.put("busy", "set", "s0", "busy", hx(b"%d" % i)) for i in range(n)]
    for i in range(12):
        if i % 2:
            await env.do(w, "m", "watchset", "c0", f"key{i}", f"key{i}", "c1", "x01")
        else:
            await env.do(w, "m", "watch", "c0", f"key{i}", f"key{i}")
            await env.do(d, "m", "set", "c0", f"key{i}", "x01")
        if i % 2 == 0:
            changes += [sd.put("busy", "set", "s0", "busy", hx(b"%d" % (n + j))) for j in range(10)]
            n += 10
    for f, _ in changes:
        await env.good(sd, f)
    for _ in range(int(WAIT / 0.05)):
        if len(w.events.get("busy", [])) == n and all(w.events.get(f"key{i}") for i in range(12)):
            break
        await asyncio.sleep(0.05)
    ctx.check([e[2] for e in w.events.get("busy", [])] == [hx(b"%d" % i) for i in range(n)], "a watcher sees each change once, in order", seen=len(w.events.get("busy", [])), done=n)
    for i in range(12):
        ev = [e[1:] for e in w.events.get(f"key{i}", [])]
        ctx.check(ev == [("-", "x01")], "a change after watchKey returned is seen", key=i, seen=ev)
    ctx.count("notifications", n + 12)
    ctx.case(("while changing", env.variant, n))
    await env.finish()


# --- time ------------------------------------------------------------------------
async def timeouts(ctx, env, rng):
    ctx.phase("timeouts")
    sd, port = await env.server()
    d = await env.client(port)
    short = await env.client(port, sid="s", timeout=1000)
    jobs = []
    for i in range(3):
        ms = rng.choice([1, 20, 80, 300])
        kind = rng.choice(["wait", "wait", "get", "mget", "gget"])
        key = f"late{i}"
        if kind == "wait":
            ks = [key] + (["there"] if i else [])
            w, sid, ms2 = d, "c0", ms
            op = ("wait", "c0", ms, *ks)
        else:
            w, sid, ms2 = short, "s", 1000
            op = (kind, "s", key)
        fut = w.put("m", *op)[0]
        r = await ctx.within(fut, WAIT, "a wait with a timeout", operation=list(op))
        if r.status == "gone":
            await env.bad(w, r)
        ctx.check(r.status == "error", "a wait for a key that never comes ends with its timeout", status=r.status, operation=list(op))
        ctx.check(r.t1 - r.t0 >= ms2 * 1e6 * 0.8, "not before its time", ms=ms2, took=(r.t1 - r.t0) / 1e6)
        when = rng.choice(["at once", "later"])
        if when == "at once":
            await make(env, sd, "s0", key, rng.choice(MAKERS))
        # the store can be used as before
        for j in range(3):
            r = await env.do(w, "m", "add", sid, f"after{i}", 1)
            ctx.check(r.value == [str(j + 1)], "after a timeout each call gets its own answer", got=r.value, expected=j + 1, key_made=when)
            if j == 1 and when != "at once":
                await make(env, sd, "s0", key, rng.choice(MAKERS))
        r = await env.do(w, "m", "check", sid, key)
        ctx.check(r.value == ["1"], "a key that was made is there", got=r.value)
        r = await env.do(w, "m", "wait", sid, 20000, key)
        jobs.append((kind, when, ms2))
    # a short timeout holds for its own wait
    r = await ctx.within(d.put("m", "wait", "c0", 1, "never")[0], WAIT, "a short wait")
    fut, begun = d.put("m", rng.choice(["wait"]), "c0", rng.choice([-1, 0]), "slow")
    await ctx.within(begun, WAIT, "a wait begins")
    await asyncio.sleep(0.3)
    await make(env, sd, "s0", "slow", "set")
    await env.good(d, fut)
    # many that end just as the key comes
    for i in range(4):
        w = d.put("m", "wait", "c0", 4, f"race{i}")[0]
        await asyncio.sleep(rng.uniform(0, 0.006))
        sd.put("m", "set", "s0", f"race{i}", "x")
        r = await ctx.within(w, WAIT, "a wait with a timeout")
        ctx.check(r.status in ("ok", "error"), "a wait ends", status=r.status)
        r = await env.do(d, "m", "add", "c0", "races", 1)
        ctx.check(r.value == [str(i + 1)], "after a timeout each call gets its own answer", got=r.value, expected=i + 1)
    ctx.case(("timeouts", env.variant, tuple(jobs)))
    await env.finish()


# --- ends and beginnings -----------------------------------------------------------
def usage(pid):
    with open(f"/proc/{pid}/stat") as f:
        s = f.read().rsplit(")", 1)[1].split()
    return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")


def held(pid):
    return len(os.listdir(f"/proc/{pid}/fd")), len(os.listdir(f"/proc/{pid}/task"))


async def ends(ctx, env, rng, how):
    ctx.phase(f"the server's end: {how}")
    sd, port = await env.server()
    d = await env.client(port)
    await env.do(d, "m", "watch", "c0", "k", "k")
    other = await env.client(port)
    fut, begun = other.put("m", "wait", "c0", -1, "never")
    await ctx.within(begun, WAIT, "a wait begins")
    await asyncio.sleep(0.1)
    if how == "killed":
        sd.kill()
        await ctx.within(sd.proc.wait(), WAIT, "dies")
    elif how == "closed":
        await env.do(sd, "m", "close", "s0")
    else:
        sd.proc.stdin.close()
        await ctx.within(sd.proc.wait(), WAIT, "ends")
    r = await ctx.within(fut, WAIT, "a wait at a server that ends")
    ctx.check(r.status == "error", "a wait at a server that has ended fails", status=r.status, report=other.reports()[-2000:])
    u0 = usage(d.proc.pid)
    t0 = time.monotonic()
    await asyncio.sleep(1.0)
    used = (usage(d.proc.pid) - u0) / (time.monotonic() - t0)
    ctx.check(used < 0.6, "a client of a server that has ended does not keep a processor busy", used=used)
    n = 0
    for op in [("add", "c0", "a", 1), ("check", "c0", "a"), ("get", "c0", "a"), ("num", "c0")]:
        r = await ctx.within(d.put("m", *op)[0], WAIT, "an operation at a server that has ended", operation=list(op))
        if r.status == "gone":
            await env.bad(d, r)
        ctx.check(r.status == "error", "an operation at a server that has ended fails", operation=list(op), status=r.status)
    # the port can be used again
    s2, port2 = await env.server(port=port)
    ctx.check(port2 == port, "the port asked for", port=port2)
    await env.client(port, d, "again")
    r = await env.do(d, "m", "add", "again", "a", 1)
    ctx.check(r.value == ["1"], "a new server begins empty", value=r.value)
    ctx.case(("ends", env.variant, how))
    await env.finish()


async def leaves(ctx, env, rng):
    ctx.phase("what closed stores leave behind")
    d = await env.driver()
    await env.do(d, "m", "sleep", 1)
    await env.server(d)  # (and whatever is made once)
    await env.do(d, "m", "close", "s0")
    await asyncio.sleep(0.05)
    before = held(d.proc.pid)
    for i in range(2):
        _, port = await env.server(d)
        for j in range(4):
            await env.client(port, d, f"c{j}")
            await env.do(d, "m", "set", f"c{j}", f"k{j}", data(rng))
            if j % 2:
                await env.do(d, "m", "watch", f"c{j}", "k0", f"{i}{j}")
        order = ["s0"] + [f"c{j}" for j in range(4)]
        rng.shuffle(order)
        for sid in order:
            await env.do(d, "m", "close", sid)
    for _ in range(100):
        after = held(d.proc.pid)
        if after == before:
            break
        await asyncio.sleep(0.05)
    ctx.check(after == before, "closed stores leave no descriptor or thread", before=before, after=after)
    # a server lives with clients that come and go
    _, port = await env.server(d)
    first = await env.client(port)
    await env.do(first, "m", "watch", "c0", "first", "first")  # (both its connections have been accepted now)
    base = held(d.proc.pid)
    for i in range(6):
        c = await env.client(port)
        await env.do(c, "m", "watch", "c0", "k", "k")
        if i % 2:
            c.kill()
        else:
            c.proc.stdin.close()
        await ctx.within(c.proc.wait(), WAIT, "ends")
    await env.do(first, "m", "set", "c0", "k", "x01")
    await env.do(first, "m", "add", "c0", "n", 1)
    for _ in range(100):
        now = held(d.proc.pid)
        if now == base:
            break
        await asyncio.sleep(0.05)
    ctx.check(now == base, "clients that went leave nothing in the server", before=base, after=now)
    ctx.case(("leaves", env.variant, tuple(order)))
    await env.finish()


async def shared(ctx, env, rng):
    ctx.phase("shared servers")
    d = await env.driver()
    _, port = await env.server(d, multi=1, sid="a")
    _, p2 = await env.server(d, port=port, multi=1, sid="b")
    ctx.check(p2 == port, "the same port")
    await env.do(d, "m", "add", "a", "k", 2)
    r = await env.do(d, "m", "add", "b", "k", 3)
    ctx.check(r.value == ["5"], "stores that share a server share its keys", value=r.value)
    x = await env.driver()
    r = await ctx.within(x.put("m", "open", "z", "server", "127.0.0.1", port, 2000, -1, 0, 0)[0], WAIT, "opening a port in use")
    ctx.check(r.status == "error", "a port in use cannot be listened at", status=r.status)
    await env.do(d, "m", "close", "a")
    r = await env.do(d, "m", "add", "b", "k", 1)
    ctx.check(r.value == ["6"], "a shared server lives as long as one store uses it", value=r.value)
    await env.do(d, "m", "close", "b")
    again = rng.choice([0, 1, 1])
    _, p3 = await env.server(d, port=port, multi=again, sid="c")
    r = await env.do(d, "m", "add", "c", "k", 1)
    ctx.check(r.value == ["1"], "a new server begins empty", value=r.value)
    if again:
        await env.server(d, port=port, multi=1, sid="e")
        await env.do(d, "m", "close", "c")
        r = await env.do(d, "m", "add", "e", "k", 1)
        ctx.check(r.value == ["2"], "stores that share a server share its keys", value=r.value)
    ctx.case(("shared", env.variant, again))
    await env.finish()


async def joins(ctx, env, rng):
    ctx.phase("joining")
    n = rng.randint(2, 4)
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    early = rng.randint(0, n - 2)
    ds = [await env.driver() for _ in range(n)]
    futs = {}

    def opens(i, kind):
        futs[i] = ds[i].put("m", "open", "j", kind, "127.0.0.1", port, 40000, n, 1, 0)[0]

    for i in range(1, 1 + early):
        opens(i, "client")
    if early:
        await asyncio.sleep(0.1)
    opens(0, "server")
    for i in range(1 + early, n - 1):
        opens(i, "client")
    await asyncio.sleep(1.6 if early else 0.2)
    ctx.check(not futs[0].done(), "the server of a group is ready only when all have come", workers=n, came=n - 1, status=futs[0].result().status if futs[0].done() else None, value=text(futs[0].result()) if futs[0].done() else None)
    opens(n - 1, "client")
    for i, f in futs.items():
        await env.good(ds[i], f)
    total = 0
    for d in ds:
        r = await env.do(d, "m", "add", "j", "all", 1)
        total += 1
        ctx.check(r.value == [str(total)], "one store", value=r.value)
    ctx.case(("joins", env.variant, n, early))
    await env.finish()


async def nonsense(ctx, env, rng):
    """Connections that speak nonsense, or end in the middle of a request."""
    ctx.phase("nonsense")
    sd, port = await env.server()
    d = await env.client(port)
    w = await env.client(port)
    await env.do(w, "m", "watch", "c0", "k", "k")

    def req(t, *parts):
        return bytes([t]) + b"".join(parts)

    def s(b):
        return struct.pack("<Q", len(b)) + b

    kinds = []
    for i in range(12):
        k = rng.choice(["nothing", "unknown", "cut", "huge key", "huge value", "huge count", "missing", "not a number", "noise", "silent", "slow", "slow"])
        kinds.append(k)
        c = socket.create_connection(("127.0.0.1", port))
        c.settimeout(20)
        try:
            if k == "unknown":
                c.sendall(bytes([rng.randint(30, 255)]) + b"zzz")
            elif k == "cut":
                whole = req(rng.choice([0, 1, 9]), s(b"/k%d" % i), s(b"v" * rng.choice([1, 5000])))
                c.sendall(whole[: rng.randint(1, min(len(whole) - 1, 40))])
            elif k == "huge key":
                c.sendall(req(rng.choice([0, 1, 2, 3, 7, 8, 9]), struct.pack("<Q", rng.choice([2**63, 2**64 - 1])), b"abc"))
            elif k == "huge value":
                c.sendall(req(0, s(b"/k"), struct.pack("<Q", rng.choice([2**63, 2**64 - 1])), b"abc"))
            elif k == "huge count":
                c.sendall(req(rng.choice([4, 5]), struct.pack("<Q", rng.choice([2**64 - 1, 2**60])), s(b"/k")))
            elif k == "missing":
                c.sendall(req(2, s(b"/missing%d" % i)))
            elif k == "not a number":
                await env.do(d, "m", "set", "c0", "word", hx(b"abc"))
                await env.do(d, "m", "num", "c0")
                c.sendall(req(3, s(b"/word"), struct.pack("<q", 1)))
            elif k == "noise":
                # (under a sanitizer an allocation that is too big for the machine ends the process; sizes no vector can have are refused)
                c.sendall(bytes([rng.randint(0, 11)]) + bytes(rng.randint(128, 255) for _ in range(rng.choice([0, 30, 400]))))
            elif k == "slow":
                # nothing wrong with it, but it comes in pieces
                v = bytes(rng.randrange(256) for _ in range(rng.choice([20, 300])))
                whole = req(0, s(b"/slow%d" % i), s(v))
                cuts = sorted(rng.sample(range(1, len(whole)), 5))
                for a, b in zip([0] + cuts, cuts + [len(whole)]):
                    c.sendall(whole[a:b])
                    await asyncio.sleep(0.01)
                r = await env.do(d, "m", "get", "c0", f"slow{i}")
                ctx.check(r.value == [hx(v)], "what comes in pieces is put together", got=r.value, sent=hx(v))
            if k in ("nothing", "cut", "noise", "huge key", "huge value", "huge count") or rng.random() < 0.5:
                if rng.random() < 0.5:
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                c.close()
        except OSError:
            pass
        ctx.count(f"nonsense: {k}")
        if sd.proc.returncode is not None:
            ctx.violation("nonsense of a connection ended the server", kind=k, status=sd.proc.returncode, report=sd.reports()[:2500])
        r = await env.do(d, "m", "add", "c0", "sane", 1)
        ctx.check(r.value == [str(i + 1)], "nonsense of others harms nobody", kind=k, got=r.value)
        await env.do(d, "m", "set", "c0", "k", hx(b"%d" % i))
    for _ in range(400):
        if len([e for e in w.events.get("k", []) if e[2] == hx(b"11")]):
            break
        await asyncio.sleep(0.05)
    ctx.check(any(e[2] == hx(b"11") for e in w.events.get("k", [])), "watchers go on")
    ctx.case(("nonsense", env.variant, tuple(kinds)))
    await env.finish()


async def frozen(ctx, env, rng):
    """A client that stands still (waiting, watching or idle) does not hold up others."""
    ctx.phase("a frozen client")
    sd, port = await env.server()
    d = await env.client(port)
    f = await env.client(port)
    await env.do(f, "m", "watch", "c0", "k", "k")
    fut, begun = f.put("m", "wait", "c0", -1, "k2")
    await ctx.within(begun, WAIT, "a wait begins")
    await asyncio.sleep(0.05)
    os.kill(f.proc.pid, signal.SIGSTOP)
    try:
        for i in range(5):
            await env.do(d, "m", "set", "c0", "k", hx(b"%d" % i))
            await env.do(d, "m", "set", "c0", "k2", hx(b"%d" % i))
            r = await env.do(d, "m", "add", "c0", "n", 1)
            ctx.check(r.value == [str(i + 1)], "others go on", value=r.value)
    finally:
        os.kill(f.proc.pid, signal.SIGCONT)
    await env.good(f, fut)
    for _ in range(400):
        if len(f.events.get("k", [])) == 5:
            break
        await asyncio.sleep(0.05)
    ctx.check([e[2] for e in f.events.get("k", [])] == [hx(b"%d" % i) for i in range(5)], "a client that stood still sees what it missed", seen=f.events.get("k"))
    ctx.case(("frozen", env.variant))
    await env.finish()


async def run(ctx):
    env = Env(ctx)
    rng = ctx.rng
    if not storeops.fmt_dirs():
        raise RuntimeError("no libfmt")
    out = os.path.join(ctx.scratch, "build")
    os.makedirs(out)
    ctx.phase("build")
    jobs = {v: storeops.build(out, v) for v in storeops.SAN}
    for v, (procs, objs) in jobs.items():
        for p in procs:
            o = (await asyncio.to_thread(p.communicate))[0]
            if p.returncode:
                raise RuntimeError(f"the store does not compile: {o.decode()[-2000:]}")
        env.exe[v] = await asyncio.to_thread(storeops.link, out, v, objs)
    # the sanitizers see what they are there for
    ctx.phase("sanitizers")
    for v, what in [("thread", "race"), ("address", "overflow"), ("address", "leak")]:
        p = await asyncio.create_subprocess_exec(env.exe[v], what, stdout=asyncio.subprocess.DEVNULL, stderr=asyncio.subprocess.PIPE,
                                                 env=dict(os.environ, TSAN_OPTIONS="exitcode=66", ASAN_OPTIONS="exitcode=67:detect_leaks=" + ("1" if what == "leak" else "0"), LSAN_OPTIONS="exitcode=68"))
        err = (await p.communicate())[1].decode(errors="replace")
        if what == "leak":
            env.leaks = "detected memory leaks" in err
        elif "Sanitizer" not in err:
            raise RuntimeError(f"the sanitizer does not see a {what}: {p.returncode} {err[:500]}")
    ctx.extra["sanitizers"] = dict(thread=True, address=True, undefined=True, leaks=env.leaks)
    n = 0
    while n < 2 or ctx.left(45, 420):
        env.variant = ["thread", "address"][n % 2]
        n += 1
        await histories(ctx, env, rng, False)
        for i in range(3):
            await waiting(ctx, env, rng, i == 0)
        await watching(ctx, env, rng, n % 4 in (1, 2))
        await while_changing(ctx, env, rng)
        await timeouts(ctx, env, rng)
        await histories(ctx, env, rng, True)
        await ends(ctx, env, rng, ["closed", "killed", "ended"][(n // 2) % 3])
        await nonsense(ctx, env, rng)
        await frozen(ctx, env, rng)
        extra = [leaves, shared, joins]
        await extra[n % 3](ctx, env, rng)
        if n <= 3:
            await extra[(n + 1) % 3](ctx, env, rng)
        ctx.count(f"rounds_{env.variant}")
