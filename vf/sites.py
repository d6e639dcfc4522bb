"""Several actor pools that stand for hosts of their own, and code that runs in them."""
import asyncio
import multiprocessing
import os
import threading
import traceback

import cloudpickle


def _site_main(conn, name, base, address, n_process, proxy_conf, kw):
    os.environ["VF_SITE"] = name
    os.environ["VF_NETWATCH"] = base
    from . import netwatch

    netwatch.install()
    import xoscar as xo

    async def serve():
        loop = asyncio.get_running_loop()
        pool = await xo.create_actor_pool(address, n_process=n_process, proxy_conf=proxy_conf, use_uvloop=False, modules=["vf.netwatch"], **kw)
        conn.send_bytes(cloudpickle.dumps(("ready", [pool.external_address] + list(pool.sub_processes))))
        stop = loop.create_future()
        tasks = {}

        def answer(key, kind, value):
            try:
                data = cloudpickle.dumps((key, kind, value))
            except Exception as e:
                data = cloudpickle.dumps((key, "error", (RuntimeError(f"cannot send {e!r}"), "")))
            with lock:
                conn.send_bytes(data)

        lock = threading.Lock()

        async def job(key, func, args):
            try:
                r = await func(pool, *args)
            except asyncio.CancelledError as e:
                answer(key, "error", (e, "cancelled"))
            except BaseException as e:
                answer(key, "error", (e, traceback.format_exc()))
            else:
                answer(key, "ok", r)
            finally:
                tasks.pop(key, None)

        def start(key, func, args):
            tasks[key] = loop.create_task(job(key, func, args))

        def read():
            try:
                while True:
                    key, func, args = cloudpickle.loads(conn.recv_bytes())
                    if key == "stop":
                        break
                    loop.call_soon_threadsafe(start, key, func, args)
            except (EOFError, OSError):
                pass
            loop.call_soon_threadsafe(lambda: stop.done() or stop.set_result(None))

        threading.Thread(target=read, daemon=True).start()
        await stop
        await pool.stop()

    asyncio.run(serve())
    os._exit(0)


class Site:
    def __init__(self, name, base, host, port, n_process, proxy_conf, allow, **kw):
        self.name = name
        self.address = f"{host}:{port}"
        self.host = host
        self.addresses = None
        with open(os.path.join(base, f"allow-{name}"), "w") as f:
            f.write("\n".join(allow))
        ctx = multiprocessing.get_context("spawn")
        self.conn, child = ctx.Pipe()
        self.process = ctx.Process(target=_site_main, args=(child, name, base, self.address, n_process, proxy_conf, kw), daemon=False)
        self.process.start()
        child.close()
        self._futures = {}
        self._n = 0
        self._loop = asyncio.get_running_loop()
        self._ready = self._loop.create_future()
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        try:
            while True:
                msg = cloudpickle.loads(self.conn.recv_bytes())
                self._loop.call_soon_threadsafe(self._got, msg)
        except (EOFError, OSError, RuntimeError):
            try:
                self._loop.call_soon_threadsafe(self._end)
            except RuntimeError:
                pass

    def _got(self, msg):
        if msg[0] == "ready":
            self.addresses = msg[1]
            self._ready.set_result(None)
            return
        key, kind, value = msg
        fut = self._futures.pop(key)
        if fut.done():
            return
        if kind == "ok":
            fut.set_result(value)
        else:
            e, tb = value
            if isinstance(e, asyncio.CancelledError):
                e = Cancelled(str(e))
            e.site_traceback = tb
            fut.set_exception(e)

    def _end(self):
        for fut in [self._ready] + list(self._futures.values()):
            if not fut.done():
                fut.set_exception(EOFError(f"site {self.name} is gone"))
                fut.exception()

    async def ready(self):
        await self._ready
        return self

    async def run(self, func, *args):
        """Runs `await func(pool, *args)` in the site's main process."""
        self._n += 1
        key = self._n
        fut = self._futures[key] = self._loop.create_future()
        self.conn.send_bytes(cloudpickle.dumps((key, func, args)))
        return await fut

    async def stop(self):
        try:
            self.conn.send_bytes(cloudpickle.dumps(("stop", None, None)))
        except OSError:
            pass
        for _ in range(150):
            if not self.process.is_alive():
                break
            await asyncio.sleep(0.1)
        else:
            self.process.kill()


class Cancelled(Exception):
    """asyncio.CancelledError that came out of code run in a site."""
