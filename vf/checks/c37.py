"""C37: every rank of a group gets from a collective what the collective defines."""
import asyncio
import os

import numpy as np

import xoscar as xo

from .. import collops, pools
from ..collops import DTYPES, OPS, REDUCE, Rank

ID = "C37"
LEVEL = "exploration"
RULE = ("worlds of 1-4 ranks in sub pools with xoscar's own binding, built with address and undefined-behaviour sanitizers over a stand-in for gloo and the real store; random programs of all collectives over "
        "random groups (in any order of ranks, made before or not), types, sizes, roots, tags, reductions, layouts of arrays, and steps that must be refused; buffers of each rank are compared with a model, and "
        "what gloo was asked with what the ranks asked; distinct = (operation, ranks of the group, type, layout); non-trivial = a group of two ranks or more")
WAIT = 90
PATIENCE = 60


def plan(rng, world, i):
    ranks = rng.sample(range(world), rng.randint(1, world))
    if rng.random() < 0.5:
        ranks = rng.sample(range(world), world)
    op = rng.choice(OPS)
    w = len(ranks)
    as_bytes = rng.random() < 0.12
    dtype = "uint8" if as_bytes else rng.choice(DTYPES)
    contiguous = ["plain", "plain", "view", "rows"]
    lay = []
    for _ in ranks:
        send = "bytes" if as_bytes else rng.choice(contiguous + ["strided"])
        recv = "bytes" if as_bytes and rng.random() < 0.5 else rng.choice(contiguous)
        lay.append((send, recv))
    return dict(op=op, ranks=ranks, n=rng.choice([1, 2, 3, 7, 64, 1000, 40000]), dtype=dtype, root=rng.randrange(w), redop=rng.choice(list(REDUCE)), tag=rng.choice([0, 0, 3, 70000]),
                elems=[rng.randint(1, 9) for _ in ranks], layouts=lay, nosend=rng.random() < 0.5, bare=rng.random() < 0.5, seed=rng.randint(0, 10**9), i=i)


class World:
    def __init__(self, ctx, rng, n, so, lib):
        self.ctx, self.rng, self.n, self.so, self.lib = ctx, rng, n, so, lib
        self.names = {}

    def reports(self):
        out = ""
        for f in sorted(os.listdir(self.logs)):
            if f.startswith("san"):
                out += open(os.path.join(self.logs, f), errors="replace").read()
        return out

    async def all(self, aws, what, **detail):
        """All must answer; if not, what the sanitizers say."""
        rs = await asyncio.wait_for(asyncio.gather(*aws, return_exceptions=True), WAIT)
        bad = [r for r in rs if isinstance(r, BaseException)]
        if bad:
            await asyncio.sleep(1)
            self.ctx.violation(f"{what} failed", error=repr(bad[0])[:300], report=self.reports()[:2500], **detail)
            raise Stop
        return rs

    async def run(self, steps):
        ctx, rng = self.ctx, self.rng
        self.logs = os.path.join(ctx.scratch, f"logs{rng.randint(0, 10**9)}")
        os.makedirs(self.logs)
        port = str(pools.free_port())
        master = {"COLLECTIVE_MASTER_IP": "127.0.0.1", "COLLECTIVE_MASTER_PORT": port}
        late = rng.random() < 0.3
        env = {"LD_PRELOAD": self.lib, "VF_PYGLOO": self.so, "VF_GLOO_LOG": self.logs, "UBSAN_OPTIONS": f"log_path={self.logs}/san", "ASAN_OPTIONS": f"detect_leaks=0:detect_odr_violation=0:log_path={self.logs}/san"}
        async with pools.pool(self.n, envs=[dict(env, **({} if late else master)) for _ in range(self.n)]) as p:
            self.refs = [await ctx.within(xo.create_actor(Rank, address=a), WAIT, "an actor") for a in pools.subs(p)[: self.n]]
            if rng.random() < 0.5:
                rng.shuffle(self.refs)
            for r in self.refs:
                op = rng.choice(OPS + ["new_group"])
                got = await ctx.within(r.outside(op), WAIT, "a call outside of a world")
                ctx.check(got == "RuntimeError", "a collective was possible in a process without a rank", got=got, op=op)
            explicit = rng.random() < 0.5
            if not explicit:
                pass
            elif rng.random() < 0.3:
                # (no address is known)
                got = await ctx.within(self.refs[0].setup(0, self.n, True, {}) if late else asyncio.sleep(0, "ValueError"), WAIT, "a rank without a master")
                ctx.check(got == "ValueError", "a rank was made without a known master", got=got)
            got = await self.all([r.setup(i, self.n, explicit, master if late else {}) for i, r in enumerate(self.refs)], "making ranks")
            ctx.check(got == [None] * self.n, "a rank was not made", got=got, n=self.n, report=self.reports()[:2000])
            for i, r in enumerate(self.refs):
                got = await ctx.within(r.params("default"), WAIT, "what a rank is")
                ctx.check(got == (i, self.n, "gloo", i, self.n, "default"), "a rank says it is another", got=got, rank=i, world=self.n)
            asked = [[] for _ in self.refs]
            for k in range(steps):
                if rng.random() < 0.12:
                    await self.refused()
                else:
                    await self.step(plan(rng, self.n, k), asked)
                if ctx.violations:
                    return
            self.judge(asked)
        ctx.check(not self.reports(), "a sanitizer reports", report=self.reports()[:2500])

    async def refused(self):
        ctx, rng = self.ctx, self.rng
        ranks = rng.choice([[self.n], [-1], [0, 0], list(range(self.n + 1)), [0, self.n + 5]])
        got = await self.all([r.illegal(ranks) for r in self.refs], "making an illegal group")
        ctx.check(set(got) == {"AssertionError"}, "an illegal group was made", ranks=ranks, got=got, world=self.n)
        ctx.count("refused")

    async def make_group(self, ranks):
        ctx = self.ctx
        got = await self.all([r.group(ranks) for r in self.refs], "making a group", ranks=ranks)
        for i, g in enumerate(got):
            ctx.check((g is None) == (i not in ranks), "a group is given to others than its ranks", ranks=ranks, rank=i, got=g)
        names = {g for g in got if g is not None}
        ctx.check(len(names) == 1, "ranks of one group know it by different names", ranks=ranks, got=got)
        (name,) = names
        key = frozenset(ranks)
        old = self.names.setdefault(key, name)
        ctx.check(old == name, "a group made again has another name", ranks=ranks, got=name, before=old)
        same = [sorted(k) for k, v in self.names.items() if v == name and k != key]
        ctx.check(not same, "two groups have one name", ranks=ranks, other=same)
        if len(ranks) == self.n:
            ctx.check(name == "default", "a group of all ranks is not the default one", got=name)
        if self.rng.random() < 0.3:
            order = sorted(ranks)
            rs = await self.all([self.refs[r].params(name) for r in order], "what a rank is in a group")
            for i, (r, got) in enumerate(zip(order, rs)):
                ctx.check(got == (r, self.n, "gloo", i, len(order), name), "a rank says it is another in a group", got=got, rank=r, ranks=ranks)
        return name

    async def step(self, step, asked):
        ctx = self.ctx
        name = await self.make_group(step["ranks"])
        order = sorted(step["ranks"])
        given = None if name == "default" and step["bare"] else name
        if self.rng.random() < 0.1:
            # a type gloo does not know: refused by all, and nothing else happens
            step = dict(step, dtype="int16", layouts=[("plain", "plain")] * len(order))
        elif step["op"] in ("reduce", "allreduce", "reduce_scatter") and self.rng.random() < 0.1:
            step = dict(step, redop=self.rng.choice(["BAND", "BOR", "BXOR", "UNUSED"]))
        bad = step["dtype"] == "int16" or step["redop"] not in REDUCE
        show = {k: v for k, v in step.items() if k != "layouts"}
        rs = await self.all([self.refs[r].step(step, g, given) for g, r in enumerate(order)], "a collective", step=show)
        for g, (r, out) in enumerate(zip(order, rs)):
            lay = step["layouts"][g]
            if bad:
                ctx.check(out["error"] and not out["touched"], "a collective that is not supported was not refused", rank=r, out=str(out)[:300], step=show)
                continue
            ctx.check(out["error"] is None, "a collective failed", error=out["error"], rank=r, step=show, layouts=lay)
            ctx.check(out["near"], "a collective wrote beyond the buffer it was given", rank=r, step=show, layouts=lay)
            ctx.check(out["sent"], "a collective changed what was sent", rank=r, step=show, layouts=lay)
            want = collops.expected(step, g)
            if want is not None and out["got"] != want.tobytes():
                got = np.frombuffer(out["got"], step["dtype"])
                ctx.violation("a rank got another result than the collective defines", rank=r, got=got[:12].tolist(), want=want[:12].tolist(), step=show, layouts=lay)
            if want is None and step["op"] == "gather":
                ctx.check(not out["touched"], "a rank which is not the root was written to", rank=r, step=show)
            ctx.count("results")
            ctx.count("elements", step["n"])
            ctx.case((step["op"], tuple(order), step["dtype"], lay), nontrivial=len(order) > 1, sample=dict(op=step["op"], ranks=step["ranks"], dtype=step["dtype"], root=step["root"]))
            root = step["root"] if step["op"] in ("reduce", "gather", "scatter", "broadcast") else -1
            asked[r].append((step["op"], g, len(order), root, step["tag"] if step["op"] != "reduce_scatter" else 0))

    def judge(self, asked):
        """What gloo was asked: the same as the ranks were, in that order."""
        logs = [open(os.path.join(self.logs, f)).read().splitlines() for f in os.listdir(self.logs) if not f.startswith("san")]
        got = {}
        for lines in logs:
            ops = []
            me = None
            made = set()
            for line in lines:
                name, rank, size, op, *rest = line.split()
                if op == "connect":
                    if name == "default":
                        me = int(rank)
                    self.ctx.count("connections")
                    self.ctx.check(name not in made, "a group made again was connected again", rank=rank, name=name)
                    made.add(name)
                    continue
                elems, esize, root, tag, algo = map(int, rest)
                ops.append((op, int(rank), int(size), root, tag))
            got[me] = ops
        for r, want in enumerate(asked):
            self.ctx.check(got.get(r) == want, "gloo was asked for other operations than the rank was", rank=r, diff=[(a, b) for a, b in zip(got.get(r, []), want) if a != b][:3], n=(len(got.get(r, [])), len(want)))


class Stop(Exception):
    pass


async def run(ctx):
    rng = ctx.rng
    out = os.path.join(ctx.scratch, "build")
    os.makedirs(out)
    ctx.phase("building the binding")
    so = await asyncio.to_thread(collops.build, out)
    lib = collops.preload()
    n = 0
    sizes = [3, 2, 4, 1]
    try:
        while n < ctx.n(3, 12) or ctx.left(45, 420):
            size = sizes[n] if n < len(sizes) else rng.choice([2, 3, 3, 4])
            n += 1
            ctx.phase(f"world {n} of {size}")
            await World(ctx, rng, size, so, lib).run(ctx.n(60, 150))
            if ctx.violations:
                break
    except Stop:
        pass
