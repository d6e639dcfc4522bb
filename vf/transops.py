"""C10: one program, run against a plain object and against actors at every place by every route."""
import asyncio
import datetime
import decimal
import fractions
import uuid
from collections import OrderedDict, namedtuple

import numpy as np
import pandas as pd

import xoscar as xo

from .actors import Boom

Point = namedtuple("Point", "x y")


class Own:
    """A user's class without any special support."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Own and same(self.v, o.v)

    def __hash__(self):
        return hash(str(self.v))

    def __repr__(self):
        return f"Own({self.v!r})"


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b) and list(a.index) == list(b.index)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if callable(a) and not isinstance(a, type):
        return a(3) == b(3)
    return a == b


def make(spec):
    """Values from a description (so that every route gets its own copy)."""
    k, n = spec
    if k == "int":
        return [0, 1, -1, 2**63, -(2**100), n][n % 6]
    if k == "float":
        return [0.5, float("inf"), -0.0, 1e300][n % 4]
    if k == "str":
        return ["", "x" * n, "ünï中\U0001f600" * (n % 5), "\udc80"[:0]][n % 4]
    if k == "bytes":
        return bytes(range(256)) * (n % 50)
    if k == "none":
        return [None, True, False, Ellipsis, NotImplemented][n % 5]
    if k == "array":
        return np.arange(n * 7, dtype=["i8", "f4", "u1", "c16"][n % 4]).reshape(7, n)[:: 1 + n % 2]
    if k == "big":
        return np.arange(n * 40000, dtype="f8")
    if k == "frame":
        return pd.DataFrame({"a": range(n), "b": [str(i) for i in range(n)]})
    if k == "own":
        return Own([n, {"k": Own(n)}])
    if k == "nest":
        return {"l": [make((s, n)) for s in ("int", "str", "array")], (1, "t"): Point(n, [n]), n: OrderedDict([("b", 1), ("a", 2)])}
    if k == "set":
        return [set(range(n)), frozenset(["a", n]), bytearray(b"z" * n), range(n)][n % 4]
    if k == "misc":
        return [datetime.datetime(2020, 1, 1, n % 24), decimal.Decimal(n), fractions.Fraction(n, 7), uuid.UUID(int=n), slice(n, None), complex(n, 1), int, Own, np.float32(n), np.dtype("M8[ns]")][n % 10]
    if k == "func":
        return lambda x: x * n
    if k == "tuple":
        return tuple(make((s, n)) for s in ("float", "bytes", "none"))
    raise AssertionError(k)


KINDS = ["int", "float", "str", "bytes", "none", "array", "frame", "own", "nest", "set", "misc", "func", "tuple"]


class UniMixin:
    attr = 5

    def __init__(self):
        super().__init__()
        self.log = []
        self.x = 0

    # every kind of signature and method
    def pos(self, a, b=2, *c):
        self.log.append("pos")
        return a, b, c

    def kwo(self, a, *, k, d=None, **kw):
        self.log.append("kwo")
        return a, k, d, sorted(kw.items(), key=lambda i: i[0])

    async def apos(self, a, /, b=2, *c, **kw):
        await asyncio.sleep(0)
        self.log.append("apos")
        return [a, b, c, kw]

    @xo.no_lock
    async def nolock(self, a):
        await asyncio.sleep(0.001)
        self.log.append("nolock")
        return {"a": a}

    @classmethod
    def cm(cls, a):
        return a

    @staticmethod
    def sm(a):
        return a

    @property
    def prop(self):
        return self.cm

    def add(self, n):
        self.x += n
        self.log.append(n)
        return self.x

    async def aadd(self, n):
        x = self.x
        await asyncio.sleep(0.001)
        self.x = x + n
        self.log.append(n)
        return self.x

    def nothing(self):
        pass

    def fails(self, tok):
        self.log.append("fails")
        raise Boom(tok, ["extra"])

    async def afails(self, tok):
        self.log.append("afails")
        raise ValueError(tok)

    def inner_attr(self):
        return self.not_there

    async def fails_after(self, n):
        self.x += n
        raise KeyError(n)

    def state(self):
        return self.x, list(self.log)


class Plain(UniMixin):
    pass


class Uni(UniMixin, xo.Actor):
    pass


class FreeUni(UniMixin, xo.StatelessActor):
    pass


def rand_val(rng, big=0.03):
    if rng.random() < big:
        return ["big", rng.randint(1, 40)]
    return [rng.choice(KINDS), rng.randint(0, 30)]


def rand_step(rng):
    """[method, positional specs, keyword specs, how]"""
    m = rng.choice(["pos", "kwo", "apos", "apos", "nolock", "cm", "sm", "prop", "add", "aadd", "add", "aadd", "nothing", "fails", "afails", "inner_attr", "fails_after", "state",
                    "missing", "badargs", "badkw", "attr"])
    v = lambda: rand_val(rng)  # noqa: E731
    a, kw = [], {}
    if m == "pos":
        a = [v() for _ in range(rng.randint(1, 4))]
    elif m == "kwo":
        a, kw = [v()], {"k": v()}
        if rng.random() < 0.5:
            kw["d"] = v()
        if rng.random() < 0.5:
            kw["kind"] = v()
            kw["args"] = v()
            kw["message"] = v()
    elif m == "apos":
        a = [v() for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.5:
            kw = {"a": v(), "uid": v(), "address": v(), "method": v()}
    elif m in ("nolock", "cm", "sm", "prop"):
        a = [v()]
    elif m in ("add", "aadd", "fails_after"):
        a = [["int", 5 + 6 * rng.randint(0, 9)]]
    elif m in ("fails", "afails"):
        a = [v()]
    elif m == "badargs":
        m, a = rng.choice(["add", "aadd", "nothing", "kwo"]), [v(), v(), v()]
    elif m == "badkw":
        m, a, kw = rng.choice(["add", "aadd", "pos"]), [["int", 5]], {"nope": v()}
    how = rng.choice(["call"] * 8 + ["send", "options", "tell", "tell", "tell_delay"])
    if how.startswith("tell") and m not in ("add", "aadd", "pos", "apos", "nothing"):
        how = "call"
    return [m, a, kw, how]


async def plain_step(o, step):
    m, a, kw, how = step
    a = [make(x) for x in a]
    kw = {k: make(x) for k, x in kw.items()}
    try:
        r = getattr(o, m)(*a, **kw)
        if asyncio.iscoroutine(r):
            r = await r
        if how.startswith("tell"):
            return ["ok", None]
        return ["ok", r]
    except Exception as e:
        if how.startswith("tell"):
            return ["ok", None]
        return ["err", type(e).__name__, e.args]


async def ref_step(ref, step):
    m, a, kw, how = step
    a = [make(x) for x in a]
    kw = {k: make(x) for k, x in kw.items()}
    try:
        meth = getattr(ref, m)
        if how == "call":
            return ["ok", await meth(*a, **kw)]
        if how == "send":
            return ["ok", await meth.send(*a, **kw)]
        if how == "options":
            return ["ok", await meth.options()(*a, **kw)]
        if how == "tell":
            try:
                await meth.tell(*a, **kw)
            except TypeError:  # a local tell of a method that fails at once may say so
                pass
            return ["ok", None]
        if how == "tell_delay":
            await meth.tell_delay(*a, delay=0.001, **kw)
            return ["ok", None]
    except Exception as e:
        names = [c.__name__ for c in type(e).__mro__]
        return ["err", names, e.args]


def agree(got, want):
    if want[0] == "ok":
        return got[0] == "ok" and same(got[1], want[1])
    return got[0] == "err" and want[1] in got[1] and (same(tuple(got[2]), tuple(want[2])) or want[1] in ("AttributeError", "TypeError"))


async def compare(ref, prog, stateless=False):
    """The program on a plain object and by a reference, in step; disagreements."""
    o = Plain()
    bad = []
    for i, step in enumerate(prog):
        want = await plain_step(o, step)
        if step[3].startswith("tell"):
            await ref_step(ref, step)
            # the next call must see it
            g = await ref_step(ref, ["state", [], {}, "call"])
            want = await plain_step(o, ["state", [], {}, "call"])
            for _ in range(300):
                if not stateless or agree(g, want):
                    break  # (a stateless actor runs a told call beside the next one)
                await asyncio.sleep(0.01)
                g = await ref_step(ref, ["state", [], {}, "call"])
        else:
            g = await ref_step(ref, step)
        if not agree(g, want):
            bad.append([i, str(step)[:300], str(g)[:300], str(want)[:300]])
    g, want = await ref_step(ref, ["state", [], {}, "call"]), await plain_step(o, ["state", [], {}, "call"])
    if not agree(g, want):
        bad.append(["end state", str(g)[:500], str(want)[:500]])
    return bad, type(ref).__name__


class Prober(xo.StatelessActor):
    async def compare(self, addr, uid, prog, stateless):
        return await compare(await xo.actor_ref(addr, uid), prog, stateless)

    async def compare_ref(self, ref, prog, stateless):
        return await compare(ref, prog, stateless)
