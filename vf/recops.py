"""C16: actors whose birth and state can be read back."""
import asyncio
import os

import numpy as np
import xoscar as xo


class Base:
    def __init__(self, *args, **kw):
        super().__init__()
        self.born_with = (args, kw)
        self.n = 0
        self.log = ["init"]

    async def __post_create__(self):
        self.log.append("post")

    def state(self):
        return dict(cls=type(self).__name__, uid=self.uid.decode(), address=self.address, args=self.born_with, n=self.n, pid=os.getpid(), log=list(self.log),
                    env=os.environ.get("VF_MARK"))

    def incr(self):
        self.n += 1
        return self.n

    async def nap(self, d):
        await asyncio.sleep(d)

    async def make(self, clsname, address, uid, args, kw, strategy=None):
        more = {} if strategy is None else dict(allocate_strategy=strategy)
        args = [a.copy() if isinstance(a, np.ndarray) else a for a in args]  # (a received one is read-only)
        return await xo.create_actor(CLASSES[clsname], *args, uid=uid, address=address, **more, **kw)

    async def remove(self, ref):
        await xo.destroy_actor(ref)

    async def ask(self, ref):
        return await ref.state()

    async def wait_recovered(self, address, main):
        await xo.wait_actor_pool_recovered(address, main)


class KeepA(Base, xo.Actor):
    pass


class KeepB(Base, xo.StatelessActor):
    pass


class SlowBorn(Base, xo.Actor):
    async def __post_create__(self):
        await asyncio.sleep(0.05)
        await super().__post_create__()


class Greedy(Base, xo.Actor):
    """Uses its arguments up."""

    def __init__(self, things, **kw):
        import copy

        super().__init__(copy.deepcopy(things), **kw)
        if isinstance(things, list):
            while things:
                things.pop()
            things.append("used up")
        elif isinstance(things, dict):
            things["used"] = things.clear()
        elif things.flags.writeable:
            things[...] = 0


class FriendOf(Base, xo.Actor):
    """Talks to another actor when it is made."""

    def __init__(self, ref, *args):
        super().__init__(ref, *args)
        self.friend = ref

    async def meet(self):
        return (await self.friend.state())["uid"]


class Dependent(FriendOf):
    """Needs an actor of its process, made earlier, to be made."""

    async def __post_create__(self):
        s = await self.friend.state()
        if s["log"] != ["init", "post"]:
            raise RuntimeError(f"the actor it depends on is not ready: {s}")
        await super().__post_create__()


CLASSES = {c.__name__: c for c in (KeepA, KeepB, SlowBorn, Greedy, FriendOf, Dependent)}
