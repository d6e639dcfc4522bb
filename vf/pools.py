"""Starting real actor pools for the workloads."""
import asyncio
import contextlib
import errno
import os
import random

import xoscar as xo


def free_port(rng=None):
    import socket

    s = socket.socket()
    try:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]
    finally:
        s.close()


async def start(n_process=2, address=None, **kw):
    """A main pool with n_process sub pools; retried if a random port was taken."""
    last = None
    for _ in range(3):
        try:
            return await xo.create_actor_pool(address or "127.0.0.1", n_process=n_process, **kw)
        except OSError as e:  # a port chosen at random by the pool got taken meanwhile
            # (SIGBUS: the machine could not read a page of a program, seen once in thousands of starts)
            if e.errno != errno.EADDRINUSE and "returncode: -7" not in str(e):
                raise
            last = e
            await asyncio.sleep(0.2)
    raise last


@contextlib.asynccontextmanager
async def pool(n_process=2, **kw):
    p = await start(n_process, **kw)
    try:
        yield p
    finally:
        await p.stop()


def subs(p):
    return list(p.sub_processes)


def addresses(p):
    return [p.external_address] + subs(p)


@contextlib.asynccontextmanager
async def inproc_pool(n_process=2, **kw):
    """xoscar's own in-process backend: sub pools are tasks of this event loop."""
    p = await xo.create_actor_pool(f"test://127.0.0.1:{free_port()}", n_process=n_process, **kw)
    try:
        yield p
    finally:
        await p.stop()
