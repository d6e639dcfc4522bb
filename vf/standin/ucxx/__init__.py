"""A stand-in for ucxx, with the meaning of UCX's tagged messages, over loopback sockets.

Messages match receives in order, also empty ones; one longer than its receive is an error, a shorter one is not.
Short messages are copied as they are sent, long ones are read from the sender's memory when the receiver is ready
(so both must stay as they are until then).  What is asked and seen is written to $VF_UCX_LOG.<pid>, one line each.
$VF_UCX_EAGER: the largest message that is copied; $VF_UCX_SEED: seed of delays."""
import asyncio
import json
import os
import random
import socket
import struct

from . import exceptions
from .exceptions import UCXCanceledError, UCXConnectionResetError, UCXMessageTruncatedError, UCXUnreachableError

EAGER, RTS, CTS, DATA = range(4)
HEAD = struct.Struct("<BIQ")
LIMIT = int(os.environ.get("VF_UCX_EAGER", "8192"))
rng = random.Random(int(os.environ.get("VF_UCX_SEED", "0")) + os.getpid())
inited = None
_tasks = set()
_n = 0


def log(**kw):
    path = os.environ.get("VF_UCX_LOG")
    if path:
        with open(f"{path}.{os.getpid()}", "a") as f:
            f.write(json.dumps(kw) + "\n")


def _spawn(coro):
    t = asyncio.ensure_future(coro)
    _tasks.add(t)
    t.add_done_callback(_tasks.discard)
    return t


async def _nap():
    if rng.random() < 0.15:
        await asyncio.sleep(rng.choice([0, 0, 0.001, 0.004]))


def _mem(buf, writable=False):
    m = memoryview(buf)
    if not m.contiguous:
        raise ValueError("Array must be contiguous")
    if writable and m.readonly:
        raise ValueError("buffer is read-only")
    if m.nbytes == 0:
        return memoryview(b"")
    if not m.c_contiguous:
        import numpy as np

        return memoryview(np.asarray(m).T).cast("B")
    return m.cast("B")


class Endpoint:
    def __init__(self, reader, writer):
        global _n
        self._r, self._w = reader, writer
        self._seq = 0
        self._arrived, self._wanted = [], []
        self._rts, self._data = {}, {}
        self._cb = None
        self._gone = None
        _n += 1
        self.id = _n
        self.sent = self.received = 0
        log(ev="open", ep=self.id)
        self._reader = _spawn(self._read())

    # what the other end does
    async def _read(self):
        try:
            while True:
                kind, seq, n = HEAD.unpack(await self._r.readexactly(HEAD.size))
                body = await self._r.readexactly(n) if kind in (EAGER, DATA) else b""
                if kind == CTS:
                    mv, fut = self._rts.pop(seq)
                    self._w.write(HEAD.pack(DATA, seq, mv.nbytes))
                    self._w.write(bytes(mv))
                    if not fut.done():
                        fut.set_result(None)
                elif kind == DATA:
                    buf, fut = self._data.pop(seq)
                    buf[: len(body)] = body
                    if not fut.done():
                        fut.set_result(None)
                else:
                    self._arrived.append((kind, seq, n, body))
                    self._match()
        except (asyncio.IncompleteReadError, ConnectionError, OSError):
            self._end(UCXConnectionResetError("Endpoint closed by the other end"))
        except asyncio.CancelledError:
            self._end(UCXCanceledError("Request canceled"))
        except BaseException as e:
            log(ev="failed", error=repr(e))
            raise

    def _match(self):
        while self._wanted and self._arrived:
            kind, seq, n, body = self._arrived.pop(0)
            buf, fut = self._wanted.pop(0)
            if n > buf.nbytes:
                log(ev="truncated", kind=kind, ep=self.id, message=n, room=buf.nbytes)
                if not fut.done():
                    fut.set_exception(UCXMessageTruncatedError(f"Message truncated: {n} > {buf.nbytes}"))
                continue
            if n < buf.nbytes:
                log(ev="short", ep=self.id, message=n, room=buf.nbytes)
            if kind == EAGER:
                buf[:n] = body
                if not fut.done():
                    fut.set_result(None)
            elif self._gone:
                if not fut.done():
                    fut.set_exception(self._gone)
            else:
                self._data[seq] = buf, fut
                self._w.write(HEAD.pack(CTS, seq, 0))
        if self._gone:
            for buf, fut in self._wanted:
                if not fut.done():
                    fut.set_exception(self._gone)
            self._wanted.clear()

    def _end(self, error):
        if self._gone is not None:
            return
        self._gone = error
        log(ev="close", ep=self.id, sent=self.sent, received=self.received)
        self._w.close()
        # the callback first, then what is under way
        if self._cb is not None:
            self._cb()
        for _, fut in [*self._rts.values(), *self._data.values()]:
            if not fut.done():
                fut.set_exception(error)
                fut.exception()
        self._rts.clear()
        self._data.clear()
        self._match()

    # what this end asks for
    async def send(self, buffer, tag=None, force_tag=False):
        mv = _mem(buffer)
        if self._gone:
            raise self._gone
        seq, self._seq = self._seq, self._seq + 1
        self.sent += 1
        if mv.nbytes <= LIMIT:
            self._w.write(HEAD.pack(EAGER, seq, mv.nbytes) + bytes(mv))
            await _nap()
            try:
                await self._w.drain()
            except ConnectionError:
                raise UCXConnectionResetError("Endpoint closed by the other end")
        else:
            fut = asyncio.get_running_loop().create_future()
            self._rts[seq] = mv, fut
            self._w.write(HEAD.pack(RTS, seq, mv.nbytes))
            await fut
            await _nap()

    async def recv(self, buffer, tag=None, force_tag=False):
        buf = _mem(buffer, True) if memoryview(buffer).nbytes else memoryview(bytearray())
        fut = asyncio.get_running_loop().create_future()
        self._wanted.append((buf, fut))
        self._match()
        await fut
        self.received += 1
        await _nap()

    def set_close_callback(self, cb):
        if self._cb is not None:
            raise RuntimeError("close callback is set already")
        self._cb = cb

    async def close(self, period=None, max_attempts=None):
        if self._gone:
            return
        await asyncio.sleep(rng.choice([0, 0.001, 0.01]))
        try:
            await asyncio.wait_for(self._w.drain(), 5)
        except (ConnectionError, asyncio.TimeoutError):
            pass
        self._end(UCXCanceledError("Request canceled"))
        self._reader.cancel()

    def abort(self, period=None, max_attempts=None):
        self._end(UCXCanceledError("Request canceled"))
        self._reader.cancel()

    @property
    def closed(self):
        return self._gone is not None

    @property
    def alive(self):
        return self._gone is None


class Listener:
    def __init__(self, sock, server):
        self._sock, self._server = sock, server
        self.port = sock.getsockname()[1]
        self.ip = sock.getsockname()[0]
        log(ev="listen", port=self.port)

    @property
    def closed(self):
        return self._sock is None

    def close(self):
        if self._sock is None:
            return
        log(ev="unlisten", port=self.port)
        self._server.cancel()
        if self._server.done() and not self._server.cancelled():
            self._server.result().close()
        self._sock.close()
        self._sock = None


def init(options=None, env_takes_precedence=False, progress_mode=None, **kw):
    global inited
    if inited is not None:
        raise RuntimeError("UCX has already been initiated. Call reset() before.")
    inited = dict(options or {})
    log(ev="init", options=inited, env={k: v for k, v in os.environ.items() if k.startswith("UCX_")})


def reset():
    global inited
    inited = None


def _check():
    if inited is None:
        init()


def create_listener(callback_func, port=None, **kw):
    _check()
    sock = socket.socket()
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        sock.bind(("0.0.0.0", port or 0))
        sock.listen(100)
    except OSError as e:
        sock.close()
        raise exceptions.UCXError(f"Device is busy: {e}")

    async def connected(r, w):
        ep = Endpoint(r, w)
        try:
            await callback_func(ep)
        except asyncio.CancelledError:
            raise
        except BaseException as e:
            log(ev="handler failed", error=f"{type(e).__name__}: {e}")

    return Listener(sock, _spawn(asyncio.start_server(lambda r, w: _spawn(connected(r, w)) and None, sock=sock, limit=1 << 24)))


async def create_endpoint(ip_address, port, **kw):
    _check()
    try:
        r, w = await asyncio.open_connection(ip_address, port, limit=1 << 24)
    except OSError as e:
        raise UCXUnreachableError(f"Destination is unreachable: {e}")
    return Endpoint(r, w)
