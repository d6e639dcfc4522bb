"""C20: what arrives is what was sent, for every kind of value."""
import asyncio
import io
import random

import cloudpickle
import numpy as np

import xoscar as xo
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize

from .. import pools
from .. import serops as so

ID = "C20"
LEVEL = "exploration"
RULE = ("random nested values of ~90 kinds (primitives, enums, subclasses of builtins with and without state, containers, dataclasses, functions, numpy arrays of all layouts, sparse, pandas, arrow, torch) "
        "serialized and deserialized directly, through the byte stream form and by actors of other processes, compared strictly (type, state, bits) with the value; distinct = set of types in a value; non-trivial = anything but a bare primitive")
WAIT = 60


class Reader:
    """A file read asynchronously."""

    def __init__(self, data):
        self.f = io.BytesIO(data)

    async def read(self, n):
        return self.f.read(n)


class Echo(xo.StatelessActor):
    def __init__(self):
        super().__init__()
        so.use_torch()

    async def echo(self, v):
        return v

    async def judge(self, v, seed, kind):
        """What arrived compared with what is meant to be sent."""
        return so.diff(make(seed, kind), v)

    async def make(self, seed, kind):
        return make(seed, kind)

    async def relay(self, ref, seed, kind):
        return await ref.judge(make(seed, kind), seed, kind)


KINDS = ["value", "value", "value", "array", "scalar", "sparse", "frame", "arrow", "tensor", "many"]


def make(seed, kind):
    r = random.Random(seed)
    if kind == "many":
        return [so.value(r, 2) for _ in range(r.randint(20, 150))]
    return getattr(so, kind)(r)


def types_in(v, acc, depth=0):
    acc.add(so.tname(v))
    if depth < 6:
        if isinstance(v, dict):
            for k, x in v.items():
                types_in(k, acc, depth + 1)
                types_in(x, acc, depth + 1)
        elif isinstance(v, (list, tuple, set, frozenset)):
            for x in v:
                types_in(x, acc, depth + 1)
        elif isinstance(v, np.ndarray):
            acc.add(f"array {v.dtype.str if not v.dtype.names else 'record'} {v.ndim}d {'C' if v.flags.c_contiguous else 'F' if v.flags.f_contiguous else 'strided'}")
        elif so.torch and isinstance(v, so.torch.Tensor):
            acc.add(f"tensor {v.dtype} {v.dim()}d {v.layout}")
    return acc


def strict(ctx, v, w, how, seed, kind):
    d = so.diff(v, w)
    if d is None and isinstance(v, np.ndarray) and type(v) is np.ndarray and v.dtype != object:
        d = None if w.dtype == v.dtype else f"dtype {v.dtype} became {w.dtype}"
    ctx.check(d is None, "what was deserialized is not what was serialized", difference=d, how=how, value_seed=seed, kind=kind)


async def one(ctx, rng, seen, seed, kind, echo):
    v = make(seed, kind)
    detail = dict(value_seed=seed, kind=kind)
    header, buffers = serialize(v)
    plain = [bytes(b) for b in buffers]
    sizes = [len(b) for b in plain]
    # what a channel hands over are bytes or views of them
    form = rng.choice([bytes, memoryview])
    w = deserialize(cloudpickle.loads(cloudpickle.dumps(header)), [form(b) for b in plain])
    strict(ctx, v, w, "direct", seed, kind)
    out = await AioSerializer(v).run()
    data = b"".join(bytes(b) for b in out)
    w = await AioDeserializer(Reader(data)).run()
    strict(ctx, v, w, "stream", seed, kind)
    ctx.check(await AioDeserializer(Reader(data)).get_size() == len(data), "get_size differs from the size of what was serialized", **detail)
    ctx.check(await AioDeserializer(Reader(data)).get_header() is not None, "no header", **detail)
    # serializing a value does not change it
    d = so.diff(make(seed, kind), v, seen={"original"})
    ctx.check(d is None, "serializing changed the value itself", difference=d, **detail)
    if echo is not None:
        how = rng.choice(["echo", "judge", "make", "relay"])
        if how == "echo":
            w = await ctx.within(echo[0].echo(v), WAIT, "a call")
        elif how == "judge":
            d = await ctx.within(echo[0].judge(v, seed, kind), WAIT, "a call")
            ctx.check(d is None, "what arrived at an actor is not what was sent", difference=d, **detail)
            w = v
        elif how == "make":
            w = await ctx.within(echo[0].make(seed, kind), WAIT, "a call")
        else:
            d = await ctx.within(echo[0].relay(echo[1], seed, kind), WAIT, "a call")
            ctx.check(d is None, "what arrived at an actor is not what another sent", difference=d, **detail)
            w = v
        d = so.diff(v, w)
        ctx.check(d is None, "what came back is not what was sent", difference=d, how=how, **detail)
        ctx.count("sent_" + how)
    ts = types_in(v, set())
    new = ts - seen
    seen |= ts
    ctx.count("buffers", len(sizes))
    ctx.case(tuple(sorted(ts)), nontrivial=kind != "scalar", sample=dict(kind=kind, value_seed=seed, types=sorted(new)[:5]) if new else None)


async def run(ctx):
    rng = ctx.rng
    np.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    so.use_torch()
    seen = set()
    async with pools.pool(n_process=2) as pool:
        a, b = [await xo.create_actor(Echo, address=x) for x in pools.subs(pool)]
        n = 0
        while n < ctx.n(1500, 10**9) and ctx.left(15, 300):
            n += 1
            if n % 50 == 0:
                ctx.phase(f"value {n}")
            await one(ctx, rng, seen, rng.randrange(2**40), rng.choice(KINDS), rng.choice([None, None, (a, b), (b, a)]))
    ctx.extra["kinds_of_values_seen"] = len(seen)
