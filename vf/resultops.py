"""Random result shapes: an actor that builds them, and a reference model of what a caller must get.

spec (plain data):
  ["val", v]            a value
  ["coro", d, v]        a coroutine answering v after d
  ["bad", d, tok]       a coroutine raising Boom(tok) after d
  ["task", d, v]        an asyncio.Task answering v
  ["fut", d, v]         a future set by a timer
  ["tup", [spec...]]    a tuple of such parts
  ["agen", steps, end]  an async generator: steps [[spec, catch]], end ["ret", v] | ["none"] | ["raise", tok] | ["plain"]
"""
import asyncio

import numpy as np
import xoscar as xo

from .actors import Boom


async def _c(d, v):
    if d:
        await asyncio.sleep(d)
    return v


async def _b(d, tok):
    if d:
        await asyncio.sleep(d)
    raise Boom(tok)


def build(s):
    k = s[0]
    if k == "val":
        return s[1]
    if k == "coro":
        return _c(s[1], s[2])
    if k == "bad":
        return _b(s[1], s[2])
    if k == "task":
        return asyncio.create_task(_c(s[1], s[2]))
    if k == "fut":
        f = asyncio.get_running_loop().create_future()
        asyncio.get_running_loop().call_later(s[1], f.set_result, s[2])
        return f
    if k == "tup":
        return tuple(build(x) for x in s[1])
    if k == "agen":
        return gen(s[1], s[2])
    if k == "cotup":  # a coroutine answering a tuple of parts
        async def ct():
            await asyncio.sleep(s[1])
            return tuple(build(x) for x in s[2])
        return ct()
    raise AssertionError(s)


async def gen(steps, end):
    log = []
    for sp, catch in steps:
        if catch:
            try:
                got = yield build(sp)
                log.append(("got", got))
            except Boom as e:
                log.append(("caught", e.token))
        else:
            got = yield build(sp)
            log.append(("got", got))
    if end[0] == "ret":
        raise xo.Return((end[1], log))
    if end[0] == "raise":
        raise Boom(end[1])
    if end[0] == "none":
        return


class Agree:
    """A value that says it equals everything."""

    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, other):
        return True

    __hash__ = None

    def __repr__(self):
        return f"Agree({self.tok!r})"


class Refuse(Agree):
    """A value that cannot be compared."""

    def __eq__(self, other):
        raise ValueError("the truth value of this comparison is ambiguous")

    __hash__ = None


class Fail(Exception):
    def __init__(self, toks):
        self.toks = set(toks)


def model(s):
    """What the caller must get for a method that returned build(s); raises Fail({tokens})."""
    k = s[0]
    if k == "val":
        return s[1]
    if k in ("coro", "task", "fut"):
        return s[2]
    if k == "bad":
        raise Fail([s[2]])
    if k in ("tup", "cotup"):
        parts = s[1] if k == "tup" else s[2]
        out, toks = [], set()
        for x in parts:
            try:
                out.append(model(x))
            except Fail as e:
                toks |= e.toks
        if toks:
            raise Fail(toks)
        return tuple(out)
    if k == "agen":
        log = []
        # log entries may depend on which of several failures is delivered: then keep the set
        for sp, catch in s[1]:
            try:
                log.append(("got", model(sp)))
            except Fail as e:
                if not catch:
                    raise
                log.append(("caught", frozenset(e.toks)))
        if s[2][0] == "ret":
            return (s[2][1], log)
        if s[2][0] == "raise":
            raise Fail([s[2][1]])
        return None
    raise AssertionError(s)


def same(a, b):
    """b is the model's value: a set of tokens stands for any of them."""
    if isinstance(b, frozenset):
        return a in b
    if type(a) is not type(b):
        return False
    if isinstance(b, Agree):
        return same(a.tok, b.tok)
    if isinstance(b, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def rand_part(rng, depth, ctr, allow_gen=True):
    ctr[0] += 1
    t = f"t{ctr[0]}"
    d = rng.choice([0, 0, 0.001, 0.004])
    k = rng.choice(["val", "val", "coro", "coro", "coro", "bad" if rng.random() < 0.35 else "coro", "task", "fut", "agen" if allow_gen and depth > 0 else "val"])
    if k == "val":
        v = rng.choice([t, ctr[0], None, b"x" * 10, [t], {"k": t}, "", 0, True, np.arange(ctr[0] % 7), Agree(t), Refuse(t)])
        return ["val", v]
    if k == "agen":
        return rand_gen(rng, depth - 1, ctr)
    return [k, d, t]


def rand_gen(rng, depth, ctr):
    steps = []
    for _ in range(rng.randint(0, 3)):
        steps.append([rand_top(rng, depth, ctr), rng.random() < 0.7])
    ctr[0] += 1
    end = rng.choice([["ret", f"r{ctr[0]}"], ["ret", f"r{ctr[0]}"], ["none"], ["raise", f"r{ctr[0]}"] if rng.random() < 0.4 else ["ret", 1]])
    if not steps and end[0] != "none":
        pass
    return ["agen", steps, end]


def rand_top(rng, depth, ctr):
    k = rng.choice(["part", "tup", "tup", "agen", "cotup"] if depth > 0 else ["part", "tup"])
    if k == "part":
        return rand_part(rng, depth, ctr)
    if k == "tup":
        return ["tup", [rand_part(rng, depth, ctr) for _ in range(rng.randint(0, 5))]]
    if k == "cotup":
        return ["cotup", rng.choice([0, 0.001]), [rand_part(rng, depth, ctr) for _ in range(rng.randint(0, 3))]]
    return rand_gen(rng, depth, ctr)


class Shaper(xo.Actor):
    """Returns what it is told, by every kind of method."""

    async def a_method(self, spec):
        await asyncio.sleep(0)
        return build(spec)

    def s_method(self, spec):
        return build(spec)

    @xo.no_lock
    async def n_method(self, spec):
        return build(spec)

    async def g_method(self, steps, end):
        """The method itself is the generator."""
        log = []
        for sp, catch in steps:
            if catch:
                try:
                    got = yield build(sp)
                    log.append(("got", got))
                except Boom as e:
                    log.append(("caught", e.token))
            else:
                got = yield build(sp)
                log.append(("got", got))
        if end[0] == "ret":
            raise xo.Return((end[1], log))
        if end[0] == "raise":
            raise Boom(end[1])


class FreeShaper(Shaper.__mro__[1] if False else xo.StatelessActor):
    a_method = Shaper.a_method
    s_method = Shaper.s_method
    n_method = Shaper.n_method
    g_method = Shaper.g_method


async def ask(ref, meth, spec):
    try:
        if meth == "g_method":
            r = await ref.g_method(spec[1], spec[2])
        else:
            r = await getattr(ref, meth)(spec)
        return ("ok", r)
    except Boom as e:
        return ("boom", e.token)
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:200])


class Asker(xo.StatelessActor):
    async def ask_all(self, addr, uid, reqs):
        ref = await xo.actor_ref(addr, uid)
        return [await ask(ref, m, s) for m, s in reqs], type(ref).__name__
