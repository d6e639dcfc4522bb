"""C36: a serializer registered for a type is that of the type and its subclasses, and of nothing else."""
import asyncio
import io
import itertools
import sys
import types

from xoscar._utils import NamedType, TypeDispatcher
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize, serialize_with_spawn
from xoscar.serialization.core import Serializer, buffered

ID = "C36"
LEVEL = "exploration"
RULE = ("random histories of registrations (of a class, of several, by name of the module, for a named context, of one serializer for many types, in the middle of use) and "
        "unregistrations over random class hierarchies (also of lists and dicts), each followed by nested values sent through serialize, serialize_with_spawn and the aio serializer; "
        "what each serializer did is recorded and compared with the nearest registration of a model; deserializers that fail are asked to rewrite errors in order; "
        "distinct = (kind of step, depth of inheritance, registrations); non-trivial = a registered serializer was used for an object")
MOD = "vf_c36_types"


class Broken(Exception):
    pass


class Plain:
    """State is kept by whoever serializes; `via` says who did."""

    via = None

    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return (self.v,)

    def __setstate__(self, v):
        (self.v,) = v
        self.via = "pickle"


class Recorder(Serializer):
    """(registered classes get ids of their own)"""

    def tag(self):
        return type(self).__name__

    def deserial(self, serialized, context, subs):
        tag, cls, n = serialized
        cls = getattr(sys.modules[MOD], cls)
        v = self.read(n, subs)
        if isinstance(v, tuple) and v and v[0] == "break" and v[1] == tag:
            raise Broken("here", tag)
        o = cls.__new__(cls)
        o.v = v
        o.via = tag if tag == self.tag() else f"{tag} read by {self.tag()}"
        if isinstance(o, list):
            o.extend(v)
        elif isinstance(o, dict):
            o.update(v)
        return o

    @staticmethod
    def state(o):
        return list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else o.v


class Deep(Recorder):
    """Its parts are serialized by others."""

    @buffered
    def serial(self, obj, context):
        return (self.tag(), type(obj).__name__, 1), [self.state(obj)], False

    def read(self, n, subs):
        return subs[0]


numbers = itertools.count()


class Fresh:
    def __init__(self, n):
        self.n = n


class OfFresh(Serializer):
    @buffered
    def serial(self, obj, context):
        return (), [obj.n], False

    def deserial(self, serialized, context, subs):
        return Fresh(subs[0])


class Pair(Recorder):
    """Parts, some of them made for this alone."""

    @buffered
    def serial(self, obj, context):
        return (self.tag(), type(obj).__name__, (n := next(numbers))), [self.tag(), [self.state(obj), {"made": [self.state(obj)]}], Fresh(n)], False

    def read(self, n, subs):
        v, made = subs[1]
        if subs[2].n != n or made["made"][0] is not v and isinstance(v, Plain):
            return "another"
        return v

    def on_deserial_error(self, serialized, context, subs_serialized, error_index, exc):
        if isinstance(exc, Broken):
            return Broken(*exc.args, (serialized[0], len(subs_serialized), error_index))


class Child(Deep):
    def read(self, n, subs):
        return subs[0]


class Grand(Child):
    pass


class Other(Deep):
    serializer_id = 31007


class Named(Deep):
    pass


class Named2(Pair):
    pass


SERIALIZERS = [Deep, Pair, Child, Grand, Other, Named, Named2]


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.mod = sys.modules[MOD] = types.ModuleType(MOD)
        self.types = []
        self.reg = {}  # (name, class) -> serializer class
        self.lazy = set()  # registered by name, not used yet
        for i in range(rng.randint(4, 8)):
            kind = rng.choice(["plain", "plain", "plain", "list", "dict"])
            same = [t for t in self.types if t.kind == kind]
            if same and rng.random() < 0.75:
                bases = tuple(rng.sample(same, rng.choice([1, 1, min(2, len(same))])))
                bases = tuple(b for b in bases if not any(b is not c and issubclass(c, b) for c in bases))
            else:
                bases = {"plain": (Plain,), "list": (list,), "dict": (dict,)}[kind]
            try:
                t = types.new_class(f"T{i}", bases, {}, lambda ns: ns.update(__module__=MOD, kind=kind, via=None))
            except TypeError:
                continue  # (no order of bases)
            setattr(self.mod, t.__name__, t)
            self.types.append(t)

    # -- model ------------------------------------------------------------
    def who(self, cls, name):
        for c in cls.__mro__:
            for k in ((name, c), (None, c)) if name else ((None, c),):
                if k in self.reg:
                    return self.reg[k].__name__
        return None

    # -- values -----------------------------------------------------------
    def value(self, depth=0, broken=None):
        rng = self.rng
        k = rng.randint(0, 6 if depth < 4 else 2)
        if k == 0:
            return rng.randint(0, 10**6)
        if k == 1:
            return rng.choice(["", "s" * rng.choice([3, 2000]), b"b" * 20])
        if k == 2:
            return None
        if k == 3:
            return [self.value(depth + 1) for _ in range(rng.randint(0, 4))]
        if k == 4:
            return {f"k{i}": self.value(depth + 1) for i in range(rng.randint(0, 3))}
        return self.make(rng.choice(self.types), depth)

    def make(self, t, depth=0, v=None):
        if t.kind == "plain":
            return t(self.value(depth + 1) if v is None else v)
        if t.kind == "list":
            return t(([self.value(depth + 1) for _ in range(self.rng.randint(0, 3))]) if v is None else [v])
        return t({f"k{i}": self.value(depth + 1) for i in range(self.rng.randint(0, 2))} if v is None else {"k": v})

    def compare(self, got, want, name, pickled=False):
        """pickled: an object above was pickled, and all in it with it"""
        if type(got) is not type(want):
            return f"{type(got)} instead of {type(want)}"
        if not isinstance(want, (Plain, list, dict)):
            return None if got == want else f"{got!r:.50} instead of {want!r:.50}"
        inside = pickled
        if type(want) in self.types:
            who = self.who(type(want), name)
            if pickled or (who is None and type(want).kind == "plain"):
                expect = "pickle" if type(want).kind == "plain" else None
                inside = True
            else:
                expect = who
            if got.via != expect:
                return f"{type(want).__name__} was serialized by {got.via}, not by {expect}"
            if who is not None and not pickled:
                self.used += 1
            if type(want).kind == "plain":
                return self.compare(got.v, want.v, name, inside)
        elif not pickled and type(want) in (list, dict) and self.who(type(want), name):
            raise AssertionError
        if len(got) != len(want):
            return "another length"
        it = zip(got, want) if isinstance(want, list) else ((got.get(k), want[k]) for k in want)
        for g, w in it:
            r = self.compare(g, w, name, inside)
            if r:
                return r

    # -- steps ------------------------------------------------------------
    def register(self):
        rng = self.rng
        s = rng.choice(SERIALIZERS)
        name = rng.choice(["fast", "disk"]) if s in (Named, Named2) or rng.random() < 0.15 else None
        ts = [t for t in self.types if not any(c.__name__ in self.lazy for c in t.__mro__)]
        if not ts:
            return
        if name is None and rng.random() < 0.2:
            t = rng.choice(ts)
            if (None, t) not in self.reg:
                s.register(f"{MOD}.{t.__name__}")
                self.reg[None, t] = s
                self.lazy.add(t.__name__)
                return "by name"
        if name is None and rng.random() < 0.2:
            some = tuple(rng.sample(ts, min(len(ts), 2)))
            s.register(some)
            for t in some:
                self.reg[None, t] = s
            return "several"
        t = rng.choice(ts)
        s.register(t, **({} if name is None else dict(name=name)))
        self.reg[name, t] = s
        return "named" if name else "one"

    def unregister(self):
        can = [k for k in self.reg if k[1].__name__ not in self.lazy]
        if not can:
            return
        name, t = k = self.rng.choice(can)
        if name is None and self.rng.random() < 0.3:
            ts = tuple(c for n, c in can if n is None and self.reg[n, c] is self.reg[k])
            self.reg[k].unregister(ts)
            for c in ts:
                del self.reg[None, c]
            return "unregister several"
        self.reg[k].unregister(t, **({} if name is None else dict(name=name)))
        del self.reg[k]
        return "unregister"

    def clear(self):
        if self.lazy:
            serialize(Plain(1))
            self.lazy.clear()
        while self.unregister():
            pass

    async def send(self, v, name):
        rng = self.rng
        context = {} if name is None else {"serializer": name}
        how = rng.choice(["plain", "spawn", "aio"]) if name is None else rng.choice(["plain", "spawn"])
        if how == "aio":
            buffers = await AioSerializer(v).run()
            return await AioDeserializer(Reader(b"".join(bytes(b) for b in buffers))).run()
        if how == "spawn":
            header, buffers = await serialize_with_spawn(v, context, spawn_threshold=rng.choice([1, 3, 100]))
        else:
            header, buffers = serialize(v, context)
        return deserialize(header, buffers)

    async def use(self, step):
        rng = self.rng
        for _ in range(3):
            name = rng.choice([None, None, "fast", "disk", "unknown"])
            v = [self.value() for _ in range(rng.randint(1, 3))] + [self.make(rng.choice(self.types)) for _ in range(2)]
            if rng.random() < 0.4:
                v.append(v[-1])
            self.used = 0
            try:
                got = await self.send(v, name)
            except Exception as e:
                import traceback

                self.ctx.violation("a value could not be sent", step=step, error=repr(e), registered=self.shown(), name=name, traceback=traceback.format_exc()[-600:])
                return
            self.lazy.clear()
            bad = self.compare(got, v, name)
            self.ctx.check(bad is None, "a value was sent by another serializer than that of its type", bad=bad, step=step, name=name, registered=self.shown())
            if v[-1] is v[-2]:
                self.ctx.check(got[-1] is got[-2], "an object sent by a registered serializer arrived as two", registered=self.shown())
            self.ctx.count("objects_sent_by_registered", self.used)
            self.ctx.case((step, len({k[1] for k in self.reg}), name is not None), nontrivial=self.used > 0, sample=dict(step=step, name=name, registered=self.shown()))

    def shown(self):
        return [(n, t.__name__, [b.__name__ for b in t.__bases__], s.__name__) for (n, t), s in self.reg.items()]

    async def errors(self):
        """An error on the way out passes each of those outside, innermost first."""
        rng = self.rng
        pairs = [t for t in self.types if t.kind == "plain" and self.who(t, None)]
        if not pairs:
            return
        chain = [rng.choice(pairs) for _ in range(rng.randint(1, 4))]
        inner = self.who(chain[0], None)
        v = chain[0](("break", inner))
        want = []
        for t in chain[1:]:
            k = rng.randint(0, 2)
            if k == 1:
                v = [1, v]
            elif k == 2:
                v = {"k": v}
            v = t(v)
            s = self.who(t, None)
            if issubclass(globals()[s], Pair):
                want.append((s, 3, 1))
        try:
            got = await self.send(["before", v, "after"], None)
        except Broken as e:
            self.ctx.check(e.args == ("here", inner, *want), "an error of a deserializer was not given to those outside it", got=e.args, want=("here", inner, *want), registered=self.shown())
            self.ctx.count("errors_rewritten", len(want))
        except Exception as e:
            self.ctx.violation("an error of a deserializer became another", got=repr(e), want=want, registered=self.shown())
        else:
            self.ctx.violation("a deserializer failed and a value came", got=repr(got)[:200])


class Reader:
    def __init__(self, data):
        self.f = io.BytesIO(data)

    async def read(self, n):
        return self.f.read(n)


def dispatch(ctx, rng):
    """The table itself."""
    d = TypeDispatcher()
    kinds = [type(f"D{i}", (), {}) for i in range(2)]
    for i in range(8):
        bases = tuple(rng.sample(kinds, rng.choice([1, 1, 2])))
        try:
            kinds.append(type(f"E{i}", bases, {}))
        except TypeError:
            pass
    model = {}
    for i in range(40):
        k = rng.randint(0, 3)
        t = rng.choice(kinds)
        name = rng.choice([None, None, "n"])
        key = NamedType(name, t) if name else t
        if k == 0:
            d.register(key, lambda o, *a, i=i, **kw: (i, o, a, kw))
            model[key] = i
        elif k == 1 and rng.random() < 0.5:
            some = tuple(rng.sample(kinds, 2))
            d.register(some, lambda o, *a, i=i, **kw: (i, o, a, kw))
            for x in some:
                model[x] = i
        elif k == 1:
            d.unregister(key)
            model.pop(key, None)
        order = itertools.chain(*(((NamedType(name, c), c) if name else (c,)) for c in t.__mro__))
        want = next((model[c] for c in order if c in model), None)
        try:
            o = t()
            got = d.get_handler(key)(o, 1, z=2)
        except KeyError:
            got = None
        ctx.check((got is None) == (want is None), "a type is found a handler of, or is not, otherwise than registered", got=got, want=want, history=i)
        if got:
            ctx.check(got == (want, o, (1,), {"z": 2}), "a type has the handler of another", got=got[0], want=want, step=i)
        if not name:
            try:
                got = d(o, 3)
            except KeyError:
                got = None
            ctx.check((got and got[0]) == want, "an object is given to another handler", got=got, want=want)
        ctx.count("dispatches")


async def run(ctx):
    rng = ctx.rng
    OfFresh.register(Fresh)
    n = 0
    while n < 20 or ctx.left(10, 200):
        n += 1
        ctx.phase(f"world {n}")
        w = World(ctx, rng)
        await w.use("none")
        for _ in range(rng.randint(3, 10)):
            step = w.register() if rng.random() < 0.65 else w.unregister()
            if not step:
                continue
            await w.use(step)
            await w.errors()
            if ctx.violations:
                break
        w.clear()
        await w.use("cleared")
        dispatch(ctx, rng)
        if n % 20 == 0:
            await asyncio.sleep(0)
