"""C09 / C10: actors that pass references around, and one operation asked for over every route."""
import asyncio
import pickle

import xoscar as xo
from xoscar.core import LocalActorRef

from .actors import Boom


class Node(xo.Actor):
    """Keeps references (and bound methods of them) under names; forwards values along a path of references."""

    def __init__(self, token):
        super().__init__()
        self.token = token
        self.kept = {}
        self.methods = {}
        self.cycle = self.who  # destroyed actors of user code are often kept alive by something
        self.calls = 0

    def who(self):
        self.calls += 1
        return self.token

    def where(self):
        return self.address, self.uid

    def own_ref(self):
        return self.ref()

    def echo(self, x):
        return x

    async def forward(self, x, path):
        if not path:
            return x
        return await path[0].forward(x, path[1:])

    async def look_up(self, addr, uid):
        return await xo.actor_ref(addr, uid)

    async def look_up_and_keep(self, name, addr, uid):
        self.kept[name] = r = await xo.actor_ref(addr, uid)
        self.methods[name] = r.who
        return isinstance(r, LocalActorRef)

    def keep(self, name, ref):
        self.kept[name] = ref
        try:
            self.methods[name] = ref.who
        except xo.ActorNotExist:  # a local reference says so at once
            self.methods[name] = lambda: ref.who()
        return isinstance(ref, LocalActorRef)

    def give(self, name):
        return self.kept[name]

    async def call_kept(self, name, cached):
        return await (self.methods[name]() if cached else self.kept[name].who())

    async def has_kept(self, name):
        return await xo.has_actor(self.kept[name])

    async def compare_kept(self, name, other):
        k = self.kept[name]
        return k == other, other == k, hash(k) == hash(other), {k: 1}.get(other), len({k, other})

    async def destroy_kept(self, name):
        await xo.destroy_actor(self.kept[name])

    async def create(self, token, address, uid):
        return await xo.create_actor(Node, token, address=address, uid=uid)

    async def try_call(self, name, cached):
        return await outcome(self.call_kept(name, cached))

    async def pickled(self, name):
        return pickle.loads(pickle.dumps(self.kept[name]))


class Node2(Node):
    pass


async def outcome(aw):
    try:
        return ["ok", await aw]
    except xo.ActorNotExist:
        return ["gone", None]
    except Exception as e:
        return ["error", type(e).__name__ + ": " + str(e)[:200]]


async def call(ref):
    return await ref.who()


class NamedNode(Node):
    """A class with a uid of its own, as users write it to find its actor."""

    @classmethod
    def uid(cls):
        return "the uid of the class"
