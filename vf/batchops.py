"""C13: actors with extensible methods of every kind, and what a batch of calls must answer."""
import asyncio

import xoscar as xo

from .actors import Boom


def value(tok, k=1, rest=(), flag=None, kw=None):
    return ["v", tok, k, list(rest), flag, sorted((kw or {}).items())]


class BatchMixin:
    """single-only / batch-only / both, sync / async / no_lock, with all kinds of parameters.

    A token starting with F fails; flag is how long an async one takes.
    """

    def __init__(self):
        super().__init__()
        self.log = []

    def _s(self, name, tok, k, rest, flag, kw):
        self.log.append(["s", name, tok])
        try:
            if tok.startswith("F"):
                raise Boom(tok)
            return value(tok, k, rest, flag, kw)
        finally:
            self.log.append(["e", name, tok])

    async def _a(self, name, tok, k, rest, flag, kw):
        self.log.append(["s", name, tok])
        try:
            await asyncio.sleep(flag or 0)
            if tok.startswith("F"):
                raise Boom(tok)
            return value(tok, k, rest, flag, kw)
        finally:
            self.log.append(["e", name, tok])

    def _bound(self, m, args_list, kwargs_list):
        bs = [m.bind(*a, **kw) for a, kw in zip(args_list, kwargs_list)]
        assert len(args_list) == len(kwargs_list)
        return bs

    def _sb(self, name, bs):
        self.log.append(["bs", name, [b.tok for b in bs]])
        try:
            for b in bs:
                if b.tok.startswith("F"):
                    raise Boom(b.tok)
            return [value(b.tok, b.k, b.rest, b.flag, b.kw) for b in bs]
        finally:
            self.log.append(["be", name, [b.tok for b in bs]])

    async def _ab(self, name, bs):
        self.log.append(["bs", name, [b.tok for b in bs]])
        try:
            out = []
            for b in bs:
                await asyncio.sleep((b.flag or 0) / 2)
                if b.tok.startswith("F"):
                    raise Boom(b.tok)
                out.append(value(b.tok, b.k, b.rest, b.flag, b.kw))
            return out
        finally:
            self.log.append(["be", name, [b.tok for b in bs]])

    # -- single only
    @xo.extensible
    def ss(self, tok, k=1, *rest, flag=None, **kw):
        return self._s("ss", tok, k, rest, flag, kw)

    @xo.extensible
    async def as_(self, tok, k=1, *rest, flag=None, **kw):
        return await self._a("as_", tok, k, rest, flag, kw)

    @xo.extensible
    @xo.no_lock
    async def ns(self, tok, k=1, *rest, flag=None, **kw):
        return await self._a("ns", tok, k, rest, flag, kw)

    # -- both
    @xo.extensible
    def sx(self, tok, k=1, *rest, flag=None, **kw):
        return self._s("sx", tok, k, rest, flag, kw)

    @sx.batch
    def sx(self, args_list, kwargs_list):
        return self._sb("sx", self._bound(self.sx, args_list, kwargs_list))

    @xo.extensible
    async def ax(self, tok, k=1, *rest, flag=None, **kw):
        return await self._a("ax", tok, k, rest, flag, kw)

    @ax.batch
    async def ax(self, args_list, kwargs_list):
        return await self._ab("ax", self._bound(self.ax, args_list, kwargs_list))

    @xo.extensible
    @xo.no_lock
    async def nx(self, tok, k=1, *rest, flag=None, **kw):
        return await self._a("nx", tok, k, rest, flag, kw)

    @nx.batch
    @xo.no_lock
    async def nx(self, args_list, kwargs_list):
        return await self._ab("nx", self._bound(self.nx, args_list, kwargs_list))

    # -- batch only
    @xo.extensible
    def sb(self, tok, k=1, *rest, flag=None, **kw):
        raise NotImplementedError

    @sb.batch
    def sb(self, args_list, kwargs_list):
        return self._sb("sb", self._bound(self.sb, args_list, kwargs_list))

    @xo.extensible
    async def ab(self, tok, k=1, *rest, flag=None, **kw):
        raise NotImplementedError

    @ab.batch
    async def ab(self, args_list, kwargs_list):
        return await self._ab("ab", self._bound(self.ab, args_list, kwargs_list))

    # -- no result
    @xo.extensible
    async def none_single(self, tok):
        await self._a("none_single", tok, 1, (), 0, {})

    @xo.extensible
    async def none_batch(self, tok):
        raise NotImplementedError

    @none_batch.batch
    async def none_batch(self, args_list, kwargs_list):
        await self._ab("none_batch", [self.ax.bind(*a, **k) for a, k in zip(args_list, kwargs_list)])

    @xo.extensible
    def none_sbatch(self, tok):
        raise NotImplementedError

    @none_sbatch.batch
    def none_sbatch(self, args_list, kwargs_list):
        self._sb("none_sbatch", [self.ax.bind(*a, **k) for a, k in zip(args_list, kwargs_list)])

    async def own_batch(self, meth, calls, how):
        """The actor batches its own method, as it would a ref's."""
        m = getattr(self, meth)
        if how == "batch":
            r = m.batch(*[m.delay(*a, **k) for a, k in calls])
        else:
            a, k = calls[0]
            r = m(*a, **k)
        if asyncio.iscoroutine(r):
            r = await r
        return r

    @xo.no_lock
    def take_log(self, toks):
        toks = set(toks)
        return [e for e in self.log if (e[2] in toks if isinstance(e[2], str) else toks & set(e[2]))]


class Batcher(BatchMixin, xo.Actor):
    pass


class SubBatcher(Batcher):
    """Overrides and extends through super()."""

    @xo.extensible
    async def as_(self, tok, k=1, *rest, flag=None, **kw):
        return await super().as_(tok, k, *rest, flag=flag, **kw)


class FreeBatcher(BatchMixin, xo.StatelessActor):
    pass


SINGLE = ["ss", "as_", "ns"]
BOTH = ["sx", "ax", "nx"]
BATCH = ["sb", "ab"]
SYNC = ["ss", "sx", "sb"]
ALL = SINGLE + BOTH + BATCH


def rand_call(rng, ctr, fail=0.0):
    ctr[0] += 1
    tok = ("F" if rng.random() < fail else "t") + str(ctr[0])
    args = [tok]
    kw = {}
    if rng.random() < 0.3:
        return [[], dict(k=ctr[0], tok=tok)]
    if rng.random() < 0.5:
        args.append(ctr[0])
        if rng.random() < 0.5:
            args += ["r"] * rng.randint(0, 3)
    if rng.random() < 0.5:
        kw["flag"] = rng.choice([0, 0.001, 0.004, 0.01])
    if rng.random() < 0.3:
        kw["extra"] = tok * 2
    if rng.random() < 0.1:
        kw["self_"] = None
    return [args, kw]


def norm(call):
    a, k = call
    k = dict(k)
    tok = a[0] if a else k.pop("tok")
    kk = a[1] if len(a) > 1 else k.pop("k", 1)
    rest = a[2:]
    flag = k.pop("flag", None)
    return value(tok, kk, rest, flag, k)


def tok_of(call):
    return call[0][0] if call[0] else call[1]["tok"]


async def do(ref, op):
    """op: [meth, calls, how]"""
    meth, calls, how = op
    try:
        if how.startswith("own"):
            r = await ref.own_batch(meth, calls, how[4:])
        else:
            m = getattr(ref, meth)
            ds = [m.delay(*a, **k) for a, k in calls]
            if how == "batch":
                r = await m.batch(*ds)
            elif how == "odd" and ds:
                # calls of one method, handed to the batch of another
                m2 = getattr(ref, "ax" if meth != "ax" else "ss")
                r = await m2.batch(*ds)
            elif how == "odd":
                r = []
            elif how == "tell":
                await m.batch(*ds, send=False)
                r = None
            elif how == "mix":
                m2 = getattr(ref, "ax" if meth != "ax" else "ss")
                ds.insert(len(ds) * (len(calls[0][0]) % 3) // 2, m2.delay("mixed"))
                try:
                    r = await m.batch(*ds)
                except ValueError as e:
                    return ["mixed", None]
            elif how == "cancel":
                t = asyncio.ensure_future(m.batch(*ds))
                await asyncio.sleep(0.003)
                t.cancel()
                try:
                    r = await t
                except asyncio.CancelledError:
                    return ["cancelled", None]
            else:
                a, k = calls[0]
                r = await m(*a, **k)
        return ["ok", r]
    except Boom as e:
        return ["boom", e.token]


async def do_all(ref, ops):
    """One client: its operations in sequence; the actor's log of each right when it answered."""
    out = []
    for op in ops:
        r = await do(ref, op)
        log = await ref.take_log([tok_of(c) for c in op[1]])
        out.append([r, log])
    # tells are over by now: everything before was issued by the same sender
    await ref.none_single("zz")
    logs = []
    for op in ops:
        for i in range(2000):
            log = await ref.take_log([tok_of(c) for c in op[1]])
            n = sum(len(e[2]) if e[0] == "bs" else 1 for e in log if e[0] in ("s", "bs"))
            m = sum(len(e[2]) if e[0] == "be" else 1 for e in log if e[0] in ("e", "be"))
            if op[2] != "tell" or (n == m and (n == len(op[1]) or (op[0] == "ss" and any(tok_of(c).startswith("F") for c in op[1])))):
                break
            # no_lock methods and stateless actors: a told batch may still be running
            await asyncio.sleep(0.005)
        logs.append(log)
    return [[r, l0, l1] for (r, l0), l1 in zip(out, logs)], type(ref).__name__


class Batchee(xo.StatelessActor):
    async def run(self, addr, uid, ops):
        return await do_all(await xo.actor_ref(addr, uid), ops)
