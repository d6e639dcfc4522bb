"""C25: every message carries everything it says."""
import asyncio
import os
import random
import sys

import xoscar as xo
from xoscar.backends import message as M
from xoscar.backends.allocate_strategy import AddressSpecified, IdleLabel, MainPool, ProcessIndex, RandomLabel, RandomSubPool
from xoscar.core import ActorRef, BufferRef, FileObjectRef
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize

from .. import serops

ID = "C25"
LEVEL = "exploration"
RULE = ("messages of every type with random values in every field, alone and wrapped in up to four forwarding ones, several in one stream, through serialize/deserialize and the stream serializers; compared field by field with what was made, "
        "copies of a first round again; errors with tracebacks and what they raise; distinct = (types nested, which fields are given); all non-trivial")


class Some(xo.Actor):
    pass


class Odd(Exception):
    def __init__(self, a, b=1):
        super().__init__(a)
        self.a, self.b = a, b

    def __reduce__(self):
        return Odd, (self.a, self.b)


class Reader:
    def __init__(self, data):
        self.data = memoryview(data)

    async def read(self, n):
        r, self.data = bytes(self.data[:n]), self.data[n:]
        return r

    readexactly = read


def text(r):
    return r.choice(["127.0.0.1:1234", "a", "", "[::1]:7", "ü" * r.randint(1, 20), "x" * r.choice([200, 1023, 1024, 1025, 5000]), f"h{r.random()}:{r.randrange(65536)}"])


def raw(r, n=None):
    return r.randbytes(r.choice([0, 1, 32, 32, 33, 300]) if n is None else n)


def ref(r):
    return ActorRef(text(r) or "a", raw(r) or b"u", proxy_addresses=r.choice([None, None, [], [text(r)], [text(r) for _ in range(4)]]))


def strategy(r):
    return r.choice([None, AddressSpecified(text(r)), MainPool(), RandomSubPool(), ProcessIndex(r.randrange(9)), RandomLabel(text(r)), IdleLabel(text(r), text(r))])


def content(r):
    return serops.value(r, r.choice([1, 2, 3]))


def trace(r):
    return r.choice([None, None, [], [content(r) for _ in range(2)]])


def error(r):
    e = r.choice([ValueError("x", 1), Odd("y", 2), KeyError("k"), asyncio.CancelledError(), RuntimeError(), OSError(2, "no", "f")])
    tb = None
    if r.random() < 0.7:
        def deep(n):
            if n:
                return deep(n - 1)
            raise e

        try:
            deep(r.randint(0, 4))
        except BaseException as err:
            tb = err.__traceback__
    return e, tb


def profiling(r):
    from xoscar.backends.context import ProfilingContext

    return r.choice([None, None, ProfilingContext(text(r))])


def given(r, **fields):
    """Some of the fields, so that defaults take part as well."""
    return {k: f(r) for k, f in fields.items() if r.random() < 0.85}


def make(r, depth):
    """(message, what its fields are)."""
    mid = raw(r, 32)
    kind = KINDS[-1] if depth and r.random() < 0.75 else r.choice(KINDS[:-1])
    prof = {}
    if kind in ("ResultMessage", "SendMessage", "TellMessage"):
        prof = given(r, profiling_context=profiling)
    kw = given(r, message_trace=trace)
    kw.update(prof)
    if kind == "ControlMessage":
        kw.update(given(r, address=text, control_message_type=lambda r: r.choice(list(M.ControlMessageType)), content=content))
    elif kind == "ResultMessage":
        kw.update(given(r, result=content))
    elif kind == "ErrorMessage":
        e, tb = error(r)
        kw.update(given(r, address=text, pid=lambda r: r.choice([0, 1, 4_194_304, 2 ** 40])), error_type=type(e), error=e, traceback=tb)
    elif kind == "CreateActorMessage":
        kw.update(given(r, actor_cls=lambda r: Some, actor_id=raw, args=lambda r: tuple(content(r) for _ in range(r.randint(0, 3))),
                        kwargs=lambda r: {f"k{i}": content(r) for i in range(r.randint(0, 3))}, allocate_strategy=strategy, from_main=lambda r: r.random() < 0.5))
    elif kind == "DestroyActorMessage":
        kw.update(actor_ref=ref(r), **given(r, from_main=lambda r: r.random() < 0.5))
    elif kind in ("HasActorMessage", "ActorRefMessage"):
        kw.update(actor_ref=ref(r))
    elif kind in ("SendMessage", "TellMessage"):
        kw.update(actor_ref=ref(r), **given(r, content=lambda r: (text(r), r.randrange(3), tuple(content(r) for _ in range(r.randint(0, 3))), {"a": content(r)})))
    elif kind == "CancelMessage":
        kw.update(given(r, address=text, cancel_message_id=raw))
    elif kind == "CopyToBuffersMessage":
        kw.update(given(r, content=lambda r: [(text(r), raw(r), r.randrange(1 << 40), r.randrange(1 << 40), memoryview(raw(r))) for _ in range(r.randint(0, 3))]))
    elif kind == "CopyToFileObjectsMessage":
        kw.update(given(r, content=lambda r: [(text(r), raw(r), raw(r)) for _ in range(r.randint(0, 3))]))
    if kind == "ForwardMessage":
        inner, desc = make(r, depth - 1)
        kw = given(r, message_trace=trace, address=text)
        return M.ForwardMessage(message_id=mid, raw_message=inner, **kw), (kind, mid, kw, desc)
    return getattr(M, kind)(message_id=mid, **kw), (kind, mid, kw, None)


KINDS = [c for c in ("ControlMessage", "ResultMessage", "ErrorMessage", "CreateActorMessage", "DestroyActorMessage", "HasActorMessage", "ActorRefMessage", "SendMessage", "TellMessage", "CancelMessage",
                     "CopyToBuffersMessage", "CopyToFileObjectsMessage", "ForwardMessage")]
NOT_FIELDS = {"message_type"}
DEFAULTS = {"pid": -1, "from_main": False, "protocol": M.DEFAULT_PROTOCOL}


def fields(m):
    return [a for a in dir(m) if not a.startswith("_") and a not in NOT_FIELDS and not callable(getattr(type(m), a))]


def frames(tb):
    out = []
    while tb is not None:
        out.append((tb.tb_frame.f_code.co_name, tb.tb_lineno))
        tb = tb.tb_next
    return out


def same_ref(a, b):
    # no proxies and none given are one thing
    return type(a) is type(b) and a.address == b.address and a.uid == b.uid and (a.proxy_addresses or None) == (b.proxy_addresses or None)


def judge(ctx, got, desc, where):
    kind, mid, kw, inner = desc

    def fail(what, **d):
        ctx.violation(f"a {kind} lost or changed something: {what}", where=where, **d)

    if type(got) is not getattr(M, kind):
        fail("its type", got=type(got).__name__)
    if got.message_id != mid:
        fail("message_id", got=got.message_id, expected=mid)
    for f in fields(got):
        if f in ("message_id", "raw_message"):
            continue
        have = getattr(got, f)
        want = kw.get(f, DEFAULTS.get(f))
        if isinstance(want, ActorRef):
            if not same_ref(want, have):
                fail(f, got=(have, have.proxy_addresses), expected=(want, want.proxy_addresses))
        elif f == "traceback":
            if frames(have) != frames(want):
                fail(f, got=frames(have), expected=frames(want))
        elif f == "error":
            if type(have) is not type(want) or have.args != want.args or getattr(have, "__dict__", {}) != getattr(want, "__dict__", {}) or str(have) != str(want):
                fail(f, got=have, expected=want)
        elif f == "allocate_strategy":
            if type(have) is not type(want) or (want is not None and _slots(have) != _slots(want)):
                fail(f, got=have, expected=want)
        elif f == "profiling_context":
            if (have is None) != (want is None) or (want is not None and have.task_id != want.task_id):
                fail(f, got=have, expected=want)
        elif isinstance(want, (str, bytes, int, bool, type)) or want is None:
            if type(have) is not type(want) or have != want:
                fail(f, got=have, expected=want)
        else:
            d = serops.diff(want, have)
            if d:
                fail(f"{f}: {d}", got=have, expected=want)
    if inner is not None:
        judge(ctx, got.raw_message, inner, where + ">")
    ctx.count("fields_compared", len(kw) + 2)


def _slots(s):
    return {a: getattr(s, a) for a in dir(s) if not a.startswith("__") and not callable(getattr(s, a))}


def raised(ctx, got, desc):
    """What the caller is shown."""
    kind, mid, kw, _ = desc
    if kind != "ErrorMessage":
        return
    e = kw["error"]
    w = got.as_instanceof_cause()
    ctx.check(isinstance(w, type(e)), "an error message raises another error", got=w, expected=e)
    ctx.check(str(w).startswith(f"[address={kw.get('address')}, pid={kw.get('pid', -1)}]"), "an error does not say where it comes from", got=str(w), expected=kw)
    if not isinstance(e, asyncio.CancelledError):
        ctx.check(str(w).endswith(str(e)) and w.args == e.args and all(getattr(w, k) == v for k, v in e.__dict__.items()), "an error lost what it says", got=w, expected=e)
    ctx.check(frames(w.__traceback__) == frames(kw["traceback"]), "an error lost its traceback", got=frames(w.__traceback__), expected=frames(kw["traceback"]))
    ctx.count("errors_judged")


def shape(desc):
    kind, _, kw, inner = desc
    return (kind, tuple(sorted(kw)), inner and shape(inner))


async def run(ctx):
    missing = [c for c in vars(M) if c.endswith("Message") and c not in KINDS]
    ctx.extra["other_message_classes"] = missing
    i = 0
    while ctx.left(9, 180) and i < ctx.n(6000, 200000):
        i += 1
        if i % 50 == 1:
            ctx.phase(f"message {i}")
            await asyncio.sleep(0)
        r = random.Random(f"{ctx.seed}/{i}")
        batch = [make(r, r.choice([0, 0, 1, 2, 4])) for _ in range(r.choice([1, 1, 1, 2, 5]))]
        ser = [serialize(m) for m, _ in batch]
        for (m, d), s in zip(batch, ser):
            got = deserialize(*s)
            judge(ctx, got, d, "serialize")
            raised(ctx, got, d)
            if r.random() < 0.1:  # what was received is sent on
                judge(ctx, deserialize(*serialize(got)), d, "twice")
            judge(ctx, m, d, "the message itself")
        if r.random() < 0.3:
            data = b""
            for m, _ in batch:
                bufs = await AioSerializer(m).run()
                data += b"".join(bytes(b) for b in bufs)
            rd = Reader(data)
            for m, d in batch:
                got = await AioDeserializer(rd).run()
                judge(ctx, got, d, "stream")
            ctx.check(not len(rd.data), "bytes are left after the last message")
            ctx.count("streams")
        for _, d in batch:
            ctx.case(shape(d), sample=str(shape(d))[:300])
