"""C33: actors that tell how the process they are in was configured."""
import asyncio
import logging
import os
import sys

import xoscar as xo


class Teller(xo.StatelessActor):
    async def tell(self, names, modules, loggers):
        return dict(
            pid=os.getpid(), ppid=os.getppid(), address=self.address,
            env={k: os.environ.get(k) for k in names},
            modules={m: getattr(sys.modules.get(m), "SEEN", None) for m in modules},
            levels={n: logging.getLogger(n).level for n in loggers},
            loop=type(asyncio.get_running_loop()).__module__)

    async def nap(self, d):
        await asyncio.sleep(d)
        return "slept"
