"""C12: actors with generator methods driven by scripts, and consumers with programs."""
import asyncio
import gc
import threading
import time

import xoscar as xo

from . import mon
from .actors import Boom, Section

GATES = {}


class Odd(ValueError):
    pass


def failure(kind, tok):
    if kind == "boom":
        return Boom(tok)
    if kind == "stoptext":
        return Odd(f"StopIteration is all I have to say about {tok}")
    if kind == "stop":
        return StopIteration(tok)
    if kind == "timeout":
        return asyncio.TimeoutError(tok)
    if kind == "key":
        return KeyError(tok)
    raise AssertionError(kind)


def expected_end(end, tok):
    """(exception class, token in its text) or None for a normal end"""
    if end is None:
        return None
    return {"boom": (Boom, tok), "stoptext": (Odd, tok), "stop": (RuntimeError, "StopIteration"), "timeout": (asyncio.TimeoutError, tok), "key": (KeyError, tok)}[end]


class GenMixin:
    def __init__(self):
        super().__init__()
        self.sec = Section()
        self.n = 0

    def _sync(self, tok, items, end):
        done = 0
        try:
            for kind, d, v in items:
                with self.sec("S" + tok):
                    b = self.n
                    time.sleep(d)
                    self.n = b + 1
                if kind == "gate":
                    GATES.setdefault(v, threading.Event()).wait(30)
                yield v
                done += 1
            if end:
                raise failure(end, tok)
        finally:
            mon.emit("genover", tok=tok, done=done)

    async def _async(self, tok, items, end):
        done = 0
        try:
            for kind, d, v in items:
                with self.sec("A" + tok):
                    b = self.n
                    await asyncio.sleep(d)
                    self.n = b + 1
                yield v
                done += 1
            if end:
                raise failure(end, tok)
        finally:
            mon.emit("genover", tok=tok, done=done)

    @xo.generator
    def sgen(self, tok, items, end=None):
        yield from self._sync(tok, items, end)

    @xo.generator
    async def agen(self, tok, items, end=None):
        async for v in self._async(tok, items, end):
            yield v

    @xo.generator
    def sret(self, tok, items, end=None):
        return self._sync(tok, items, end)

    @xo.generator
    async def aret(self, tok, items, end=None):
        await asyncio.sleep(0)
        return self._async(tok, items, end)

    @xo.generator
    async def aret_sync(self, tok, items, end=None):
        return self._sync(tok, items, end)

    @xo.generator
    async def nested(self, tok, items, end=None, addr=None, uid=None, meth=None):
        """Passes on another actor's generator."""
        try:
            ref = await xo.actor_ref(addr, uid)
            async for v in await getattr(ref, meth)(tok + "i", items, end):
                yield v
        finally:
            mon.emit("genover", tok=tok, done=0)

    @xo.generator
    def no_gen(self, v):
        return v

    @xo.generator
    async def no_agen(self, v):
        await asyncio.sleep(0)
        return v

    async def plain(self, tok, d):
        with self.sec("P" + tok):
            b = self.n
            await asyncio.sleep(d)
            self.n = b + 1
        return tok

    @xo.no_lock
    def open_gate(self, name):
        GATES.setdefault(name, threading.Event()).set()

    @xo.no_lock
    def state(self):
        gc.collect()
        return dict(left=len(self._generators), overlaps=[list(map(str, o)) for o in self.sec.overlaps], n=self.n, inside=list(self.sec.inside))


class Gen(GenMixin, xo.Actor):
    pass


class FreeGen(GenMixin, xo.StatelessActor):
    pass


async def take(it, k):
    """Up to k items; (items, end) with end None, 'end' or (class name chain, text)"""
    got = []
    while k is None or len(got) < k:
        try:
            got.append(await it.__anext__())
        except StopAsyncIteration:
            return got, "end"
        except Exception as e:
            return got, [[c.__name__ for c in type(e).__mro__], str(e)[:300]]
    return got, None


async def consume(ref, prog, others=()):
    """One consumer program: [meth, tok, items, end, extra kwargs, how, k]"""
    meth, tok, items, end, extra, how, k = prog
    it = await getattr(ref, meth)(tok, items, end, **extra)
    kind = type(it).__name__
    if how == "all":
        got, fin = await take(it, None)
    elif how == "for":
        got = []
        fin = "end"
        try:
            async for v in it:
                got.append(v)
        except Exception as e:
            fin = [[c.__name__ for c in type(e).__mro__], str(e)[:300]]
    elif how == "abandon":
        got, fin = await take(it, k)
        del it
        gc.collect()
        return [got, fin, kind, None]
    elif how == "destroy":
        got, fin = await take(it, k)
        await it.destroy()
        after, fin2 = await take(it, 1)
        return [got, fin, kind, [after, fin2]]
    elif how == "handover":
        got, fin = await take(it, k)
        if fin is None:
            got2, fin = await others[0].go_on(it, others[1:])
            got = got + got2
    else:
        raise AssertionError(how)
    after, fin2 = await take(it, 1) if how != "handover" else ([], "x")
    return [got, fin, kind, [after, fin2]]


class Consumer(xo.StatelessActor):
    async def go_on(self, it, others):
        got, fin = await take(it, 2 if others else None)
        if fin is None and others:
            more, fin = await others[0].go_on(it, others[1:])
            got = got + more
        return got, fin

    async def run(self, addr, uid, progs, others):
        ref = await xo.actor_ref(addr, uid)
        return [await consume(ref, p, others) for p in progs]

    def collect(self):
        gc.collect()
