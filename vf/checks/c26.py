"""C26: copy_to moves buffers and files byte for byte, or raises."""
import asyncio
import io
import os
import pickle
import random

import numpy as np

import xoscar as xo
from xoscar.aio import AioFileObject
from xoscar.core import BufferRef, FileObjectRef

from .. import pools

ID = "C26"
LEVEL = "exploration"
RULE = ("lists of buffers (arrays of several dtypes, memoryviews; sizes around multiples of a random block size, also empty) and of files (any size and position, short reads) copied between "
        "every pair of processes, several at once; the destination is compared byte by byte, including what lies behind and between; wrong uses (released, closed, read-only, too small, several destinations) must raise; "
        "distinct = (kind, path, sizes in blocks); nontrivial = something copied")
WAIT = 60
GUARD = 7


def pattern(seed, n):
    return np.random.default_rng(seed).integers(0, 256, n, dtype=np.uint8)


class Hands(io.RawIOBase):
    """A file that hands out as much as it likes."""

    def __init__(self, data, seed):
        self._f = io.BytesIO(data)
        self._rng = random.Random(seed)

    def readable(self):
        return True

    def read(self, n=-1):
        if n and n > 1:
            n = self._rng.randint(1, n)
        return self._f.read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)


class Holder(xo.Actor):
    """Has buffers and files, and copies."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.bufs = {}
        self.files = {}
        self.n = 0

    def make(self, spec):
        """spec: list of (kind, dtype, elements, extra elements); backed by one slab with guards between."""
        refs = []
        for kind, dtype, n, extra in spec:
            item = np.dtype(dtype).itemsize
            slab = pattern(self.n, (n + extra + 2 * GUARD) * item)
            before = slab.tobytes()
            view = slab.view(dtype)[GUARD: GUARD + n + extra]
            if kind == "mv":
                view = memoryview(view)
            elif kind == "ro":
                view.flags.writeable = False
            elif kind == "romv":
                view = memoryview(view).toreadonly()
            ref = xo.buffer_ref(self.address, view)
            assert BufferRef.get_buffer(ref) is view
            key = (ref.address, ref.uid)
            self.bufs[key] = [slab, view, before, (GUARD * item, (GUARD + n) * item)]
            self.n += 1
            refs.append(ref)
            del view
        return refs

    def second(self, ref):
        return xo.buffer_ref(self.address, self.bufs[ref.address, ref.uid][1])

    def look(self, refs):
        """[(bytes meant to be written, whether everything around is untouched)]"""
        res = []
        for ref in refs:
            slab, _, before, (a, b) = self.bufs[ref.address, ref.uid]
            now = slab.tobytes()
            res.append((now[a:b], now[:a] == before[:a] and now[b:] == before[b:], now == before))
        return res

    def free(self, refs):
        for ref in refs:
            del self.bufs[ref.address, ref.uid]

    async def open(self, name, content, position, mode="r+b", buffering=-1):
        path = os.path.join(self.scratch, name)
        with open(path, "wb") as f:
            f.write(content)
        f = open(path, mode, buffering=buffering)
        f.seek(position)
        aio = AioFileObject(f)
        ref = xo.file_object_ref(self.address, aio)
        assert FileObjectRef.get_local_file_object(ref) is aio
        self.files[ref.address, ref.uid] = (path, f, aio)
        return ref

    async def read_back(self, refs):
        res = []
        for ref in refs:
            path, f, aio = self.files[ref.address, ref.uid]
            pos = None
            if not f.closed:
                await aio.flush()
                pos = await aio.tell()
            with open(path, "rb") as g:
                res.append((g.read(), pos))
        return res

    async def close(self, refs, keep=False):
        for ref in refs:
            path, f, aio = self.files[ref.address, ref.uid]
            await aio.close()
            if not keep:
                del self.files[ref.address, ref.uid]
                os.unlink(path)

    async def copy(self, what, refs, block):
        """Copies local data (made from its description) and says whether it stayed the same."""
        local, before = build(what)
        await xo.copy_to(local, refs, block)
        return same(what, local, before)

    async def copy_own(self, own, refs, block):
        await xo.copy_to([self.bufs[r.address, r.uid][1] for r in own], refs, block)


def build(what):
    local, before = [], []
    for kind, *rest in what:
        if kind == "file":
            content, position, short, seed = rest
            if short:
                f = Hands(content, seed)
                f._f.seek(position)
            else:
                f = io.BytesIO(content)
                f.seek(position)
            local.append(AioFileObject(f))
            before.append(content)
        else:
            dtype, n, seed, strided = rest
            item = np.dtype(dtype).itemsize
            a = pattern(seed, n * item).view(dtype)
            if strided and kind == "arr":
                b = np.zeros(n * 2, dtype)
                b[::2] = a
                a = b[::2]
            if kind == "mv":
                a = memoryview(a)
            elif kind == "bytes":
                a = a.tobytes()
            local.append(a)
            before.append(bytes(pattern(seed, n * item)))
    return local, before


def same(what, local, before):
    return all(kind == "file" or bytes(memoryview(np.ascontiguousarray(a) if isinstance(a, np.ndarray) else a).cast("B") if len(a) else b"") == b for (kind, *_), a, b in zip(what, local, before))


def sizes(rng, block, k):
    out = []
    for _ in range(k):
        base = rng.choice([0, 0, 1, 1, 1, 2, 3, 7]) * block
        out.append(max(0, base + rng.choice([-2, -1, 0, 0, 1, 2, rng.randrange(0, block + 1)])))
    return out


def name_of(pl, a):
    return "main" if a == pl.external_address else "sub"


async def buffers(ctx, pl, holders, who, rng, seed):
    block = rng.choice([1, 2, 3, 7, 16, 64, 1000, 65536, None])
    k = rng.choice([1, 1, 2, 3, 5, 9])
    ss = sizes(rng, block or 300, k) if (block or 300) < 5000 or k < 6 else sizes(rng, 1000, k)
    if block == 1:
        ss = [s % 20 for s in ss]
    if rng.random() < 0.15:
        ss = [rng.choice([100_000, 1 << 20, 3_000_001])] + ss[:2]
        block = rng.choice([None, 65536, 999_983])
    spec, what = [], []
    for i, n in enumerate(ss):
        extra = rng.choice([0, 0, 1, 5])
        kind = rng.choice(["arr", "arr", "mv"])
        if kind == "mv":
            spec.append(("mv", "u1", n, extra))
            what.append((rng.choice(["mv", "mv", "bytes"]), "u1", n, seed * 100 + i, False))
        else:
            dtype = rng.choice(["u1", "u1", "i8", "f8", "u2", "c16"]) if n < 100_000 else "u1"
            if dtype in ("f8", "c16"):
                dtype = dtype.replace("f8", "i4").replace("c16", "u4")
            spec.append(("arr", dtype, n, extra))
            what.append(("arr", dtype, n, seed * 100 + i, rng.random() < 0.15))
    dest = rng.choice(holders)
    refs = await dest.make(spec)
    if rng.random() < 0.2:  # a second name of the same buffer
        j = rng.randrange(len(refs))
        other = await dest.second(refs[j])
        ctx.check(other != refs[j], "two references of one buffer are the same", a=other, b=refs[j])
        names = [other if i == j else r for i, r in enumerate(refs)]
    else:
        names = refs
    src = rng.choice(who)
    if src is None:
        local, before = build(what)
        await ctx.within(xo.copy_to(local, names, block), WAIT, "copy_to of buffers", data=what, block=block)
        ok = same(what, local, before)
        path = f"check>{name_of(pl, dest.address)}"
    else:
        ok = await ctx.within(src.copy(what, names, block), WAIT, "copy_to of buffers", data=what, block=block)
        path = f"{name_of(pl, src.address)}>{'self' if src.address == dest.address else name_of(pl, dest.address)}"
    ctx.check(ok, "copy_to changed what it copied from", data=what, block=block, path=path)
    seen = await dest.look(refs)
    for i, ((data, around, _), (kind, dtype, n, s, strided)) in enumerate(zip(seen, what)):
        want = pattern(s, n * np.dtype(dtype).itemsize).tobytes()
        if data != want:
            at = next((x for x in range(len(want)) if data[x:x + 1] != want[x:x + 1]), None)
            ctx.violation("copy_to delivered other bytes", path=path, block=block, data=what, buffer=i, first_difference=at)
        ctx.check(around, "copy_to wrote where it should not", path=path, block=block, data=what, buffer=i)
    await dest.free(refs)
    ctx.count("buffers_compared", len(refs))
    ctx.count("bytes_compared", sum(len(d) for d, *_ in seen))
    ctx.case((path, [(w[0], w[1]) for w in what], block, [n // (block or 1 << 30) for n in ss]), nontrivial=any(ss), sample=f"{path} block={block} {[(w[0], w[1], w[2]) for w in what]}")


async def files(ctx, pl, holders, who, rng, seed):
    block = rng.choice([1, 3, 16, 100, 4096, None])
    k = rng.choice([1, 1, 2, 3, 6])
    ss = sizes(rng, block or 3000, k)
    if block == 1:
        ss = [s % 30 for s in ss]
    elif rng.random() < 0.1:
        ss[0] = 1_500_000
        block = rng.choice([None, 100_000])
    dest = rng.choice(holders)
    what, refs, want = [], [], []
    for i, n in enumerate(ss):
        content = pattern(seed * 100 + i, n).tobytes()
        start = rng.choice([0, 0, 0, rng.randint(0, n)])
        what.append(("file", content, start, rng.random() < 0.3, seed * 100 + i))
        there = pattern(seed * 100 + 50 + i, rng.choice([0, 0, 10, n + 20])).tobytes()
        pos = rng.choice([0, len(there), rng.randint(0, len(there))])
        refs.append(await dest.open(f"f{seed}-{i}", there, pos, buffering=rng.choice([-1, -1, 0])))
        sent = content[start:]
        want.append((there[:pos] + sent + there[pos + len(sent):], pos + len(sent)))
    src = rng.choice(who)
    if src is None:
        local, _ = build(what)
        await ctx.within(xo.copy_to(local, refs, block), WAIT, "copy_to of files")
        for aio, w in zip(local, what):
            ctx.check(not await aio.read(), "copy_to left something of a file behind")
        path = f"check>{name_of(pl, dest.address)}"
    else:
        await ctx.within(src.copy(what, refs, block), WAIT, "copy_to of files")
        path = f"{name_of(pl, src.address)}>{'self' if src.address == dest.address else name_of(pl, dest.address)}"
    got = await dest.read_back(refs)
    short = [(len(w[1]), w[2], w[3]) for w in what]
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g == w, "a copied file is not what it should be", path=path, block=block, files=short, file=i, length=len(g[0]), expected_length=len(w[0]), position=g[1], expected_position=w[1])
    await dest.close(refs)
    ctx.count("files_compared", len(refs))
    ctx.case(("files", path, block, [n // (block or 1 << 30) for n in ss], [w[3] for w in what]), nontrivial=any(len(w[1]) > w[2] for w in what))


async def must_raise(ctx, aw, what, **detail):
    try:
        await ctx.within(aw, WAIT, what, **detail)
    except Exception as e:
        if type(e).__name__ in ("Hang", "Violation"):
            raise
        ctx.count("refusals_seen")
        ctx.case(("refused", what, type(e).__name__), nontrivial=True)
        return e
    ctx.violation(f"{what}: copy_to returned as if done", **detail)


async def copying(src, what, refs, block):
    if src is None:
        local, _ = build(what)
        return await xo.copy_to(local, refs, block)
    return await src.copy(what, refs, block)


async def wrong(ctx, pl, holders, who, rng, seed):
    """One destination of several is no good: the call raises, and the pool goes on."""
    dest = rng.choice(holders)
    src = rng.choice(who)
    kind = rng.choice(["released", "read-only", "small", "unknown", "closed file", "released file", "lengths", "two", "block", "empty", "kinds", "local"])
    k = rng.choice([1, 2, 4])
    block = rng.choice([None, 5, 64])
    bad = rng.randrange(k)
    n = rng.choice([3, 10, 70])
    what = [("arr", "u1", n, seed * 100 + i, False) for i in range(k)]
    fwhat = [("file", pattern(seed * 100 + i, n).tobytes(), 0, False, 1) for i in range(k)]
    detail = dict(kind=kind, k=k, block=block, bad=bad, n=n, src=getattr(src, "address", "check"), dest=dest.address)
    refs = []
    if kind in ("released", "read-only", "small", "unknown"):
        spec = [("arr", "u1", n, 0) for _ in range(k)]
        if kind == "read-only":
            spec[bad] = (rng.choice(["ro", "romv"]), "u1", n, 0)
        elif kind == "small":
            spec[bad] = ("mv", "u1", n - 1, 0)
            if rng.random() < 0.5:
                spec[bad] = ("arr", "u1", n - 2, 0)
                block = None
        refs = await dest.make(spec)
        good = [r for i, r in enumerate(refs) if i != bad]
        target = list(refs)
        if kind == "released":
            await dest.free([refs[bad]])
            refs = good
        elif kind == "unknown":
            target[bad] = BufferRef(dest.address, os.urandom(32))
        await must_raise(ctx, copying(src, what, target, block), f"destination {kind}", **detail)
        if kind in ("released", "read-only"):
            for i, (data, around, untouched) in enumerate(await dest.look(refs)):
                ctx.check(around, "a refused copy wrote where it should not", **detail)
                if kind == "read-only" and i == bad:
                    ctx.check(untouched, "a read-only buffer was written", **detail)
        await dest.free(refs)
    elif kind in ("closed file", "released file"):
        refs = [await dest.open(f"w{seed}-{i}", b"", 0) for i in range(k)]
        await dest.close([refs[bad]], keep=kind == "closed file")
        await must_raise(ctx, copying(src, fwhat, refs, block), kind, **detail)
        if kind == "released file":
            del refs[bad]
        await dest.close(refs)
    elif kind == "kinds":
        f = await dest.open(f"w{seed}", b"", 0, mode="rb")
        await must_raise(ctx, copying(src, fwhat[:1], [f], block), "file opened for reading", **detail)
        await dest.close([f])
    else:
        refs = await dest.make([("arr", "u1", n, 0) for _ in range(k)])
        if kind == "lengths":
            aw = copying(src, what + what[:1], refs, block) if rng.random() < 0.5 or k == 1 else copying(src, what[:-1], refs, block)
        elif kind == "two":
            other = next(h for h in holders if h.address != dest.address)
            more = await other.make([("arr", "u1", n, 0)])
            target = refs + more
            rng.shuffle(target)
            aw = copying(src, what + [("arr", "u1", n, 1, False)], target, block)
        elif kind == "block":
            aw = copying(src, what, refs, rng.choice([0, -1]))
        elif kind == "empty":
            aw = rng.choice([lambda: copying(src, [], refs, block), lambda: copying(src, what, [], block), lambda: copying(src, [], [], block)])()
        else:  # a local file that is closed
            aio = AioFileObject(io.BytesIO(b"abc"))
            await aio.close()
            f = await dest.open(f"w{seed}", b"", 0)
            aw = xo.copy_to([aio], [f], block)
        await must_raise(ctx, aw, f"wrong use: {kind}", **detail)
        for data, around, untouched in await dest.look(refs):
            ctx.check(untouched, "a refused copy wrote something", **detail)
        if kind == "two":
            ctx.check((await other.look(more))[0][2], "a refused copy wrote something", **detail)
            await other.free(more)
        if kind == "local":
            ctx.check((await dest.read_back([f]))[0][0] == b"", "a refused copy wrote something", **detail)
            await dest.close([f])
        await dest.free(refs)


def references(ctx, rng):
    """Names of buffers and files: values of their own."""
    seen = {}
    for cls, obj in ((BufferRef, np.zeros(3)), (FileObjectRef, AioFileObject(io.BytesIO()))):
        make = xo.buffer_ref if cls is BufferRef else xo.file_object_ref
        get = cls.get_buffer if cls is BufferRef else cls.get_local_file_object
        refs = [make("127.0.0.1:1", obj) for _ in range(20)]
        ctx.check(len(set(refs)) == 20, "references made one by one are not distinct", refs=refs)
        for r in refs:
            c = pickle.loads(pickle.dumps(r))
            ctx.check(type(c) is cls and c == r and hash(c) == hash(r) and get(c) is obj and (c.address, c.uid) == (r.address, r.uid), "a reference pickled is another", ref=r, other=c)
            ctx.check(cls("127.0.0.1:2", r.uid) != r and cls(r.address, r.uid) == r and r != (r.address, r.uid), "references are compared wrongly", ref=r)
            seen[r] = cls
        other = BufferRef if cls is FileObjectRef else FileObjectRef
        ctx.check(other(refs[0].address, refs[0].uid) != refs[0], "references of a buffer and a file are equal")
        del obj
    ctx.case("references")


async def relayed(ctx, holders, rng, seed):
    """Data that goes on from process to process, and references passed along."""
    order = [rng.choice(holders) for _ in range(4)]
    n = rng.randint(1, 5000)
    block = rng.choice([1 + n // 3, 100, None])
    src = pattern(seed, n)
    refs = []
    for h in order:
        refs.append((await h.make([("arr", "u1", n, 0)]))[0])
    await ctx.within(xo.copy_to([src], [refs[0]], block), WAIT, "relayed copy")
    for i in range(1, len(order)):
        await ctx.within(order[i - 1].copy_own([refs[i - 1]], [refs[i]], block), WAIT, "relayed copy")
    for h, r in zip(order, refs):
        (data, around, _), = await h.look([r])
        ctx.check(data == src.tobytes() and around, "data copied on from process to process changed", n=n, block=block, order=[x.address for x in order])
        await h.free([r])
    ctx.count("relays")
    ctx.case(("relay", tuple(h.address == order[0].address for h in order), n // (block or 1 << 30)))


async def shared_destination(ctx, holders, who, rng, seed):
    """Several write parts of one buffer at once: everyone's part arrives."""
    dest = rng.choice(holders)
    k = rng.choice([2, 3, 5])
    jobs = []
    for j in range(k):
        n = rng.randint(1, 3000)
        refs = await dest.make([("arr", "u1", n, 3)] * rng.choice([1, 3]))
        what = [("arr", "u1", n, seed * 100 + j * 10 + i, False) for i in range(len(refs))]
        jobs.append((refs, what, rng.choice([7 if n < 400 else 97, 100, 1000, None])))
    srcs = [rng.choice(who) for _ in jobs]
    await ctx.within(asyncio.gather(*(copying(s, what, refs, block) for s, (refs, what, block) in zip(srcs, jobs))), WAIT, "copies at once")
    for refs, what, block in jobs:
        for (data, around, _), (_, _, n, s, _) in zip(await dest.look(refs), what):
            ctx.check(data == pattern(s, n).tobytes() and around, "copies made at once got mixed up", block=block, data=what)
        await dest.free(refs)
    ctx.count("copies_at_once", k)
    ctx.case(("at once", k, tuple(b for *_, b in jobs)))


async def big_plan(ctx, pl, holders, who, rng, seed):
    """Many blocks through few bytes: the plan's arithmetic at every remainder."""
    for block in range(1, 8):
        ns = [rng.randint(0, 3 * block) for _ in range(8)]
        dest = rng.choice(holders)
        refs = await dest.make([("arr", "u1", n, 1) for n in ns])
        what = [("arr", "u1", n, seed * 100 + i, False) for i, n in enumerate(ns)]
        await ctx.within(copying(rng.choice(who), what, refs, block), WAIT, "copy of small blocks")
        for (data, around, _), (_, _, n, s, _) in zip(await dest.look(refs), what):
            ctx.check(data == pattern(s, n).tobytes() and around, "copy_to delivered other bytes", block=block, sizes=ns)
        await dest.free(refs)
        ctx.case(("small blocks", block, tuple(ns)))


async def run(ctx):
    rng = ctx.rng
    ctx.phase("references")
    references(ctx, rng)
    seed = turn = 0
    while True:
        turn += 1
        kw = {} if turn % 2 else dict(enable_internal_addresses=[rng.random() < 0.3 for _ in range(4)])
        async with pools.pool(3, labels=["m", "a", "a", "b"], **kw) as pl:
            holders = [await xo.create_actor(Holder, ctx.scratch, address=a) for a in pools.addresses(pl)]
            who = [None] + holders
            for _ in range(ctx.n(60, 150)):
                seed += 1
                ctx.phase(f"round {seed}")
                await buffers(ctx, pl, holders, who, rng, seed)
                await files(ctx, pl, holders, who, rng, seed * 1000)
                await wrong(ctx, pl, holders, who, rng, seed)
                if seed % 3 == 0:
                    await relayed(ctx, holders, rng, seed)
                    await shared_destination(ctx, holders, who, rng, seed)
                if seed % 15 == 0:
                    await big_plan(ctx, pl, holders, who, rng, seed)
                if not ctx.left(7 * turn, 60 * turn):
                    break
        if turn >= 2 and not ctx.left(9, 230):
            break
