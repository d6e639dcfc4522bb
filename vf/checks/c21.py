"""C21: what refers to the same thing still does after serialization."""
import asyncio
import collections
import pickle
import random
from concurrent.futures import ThreadPoolExecutor

import cloudpickle
import numpy as np

import xoscar as xo
from xoscar.errors import SendMessageFailed
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize, serialize_with_spawn

from .. import pools
from .. import serops as so
from .c20 import Reader

ID = "C21"
LEVEL = "exploration"
RULE = ("random graphs of up to 200 lists, dicts, subclasses, tuples, namedtuples, arrays and objects with shared and cyclic references; each serialized at once, in steps continued in threads at every kind of threshold, "
        "several at a time, through the byte stream and by calls; a bijection of nodes is built while comparing; distinct = shape of graph; non-trivial = sharing or a cycle")
WAIT = 60
NODES = (list, dict, np.ndarray, so.Plain)


def graph(r, n):
    """Random graph of n nodes; returns its root."""
    nodes, todo = [], []
    # the same objects as keys in several places, and elsewhere
    keys = [(i, "shared", "S" * r.choice([1, 1500])) for i in range(3)] + [so.Point(i, (i, "in")) for i in range(2)] + [frozenset([5, 6]), "K" * 1600, so.Frozen((1, 2))]
    hard = r.random() < 0.3
    for i in range(n):
        k = r.randrange(16)
        if k == 0 and hard:
            x = so.Node()
            keys.append(x)
        elif k < 4:
            x = []
        elif k < 7:
            x = {}
        elif k == 7:
            x = so.MyList()
        elif k == 8:
            x = collections.OrderedDict()
        elif k == 9:
            x = collections.defaultdict(list)
        elif k == 10:
            x = so.MyDict()
        elif k == 11:
            x = np.arange(r.randrange(5))
        elif k == 12:
            x = so.Plain(i=i, own=[i])
        elif k in (13, 14) and nodes:
            kids = [r.choice(nodes) for _ in range(r.randint(0, 3))]
            x = tuple(kids) if k == 13 else so.Point(kids, r.choice(nodes))
        elif r.random() < 0.2:
            x = r.choice(keys)
        else:
            x = r.choice(["s" * 2000, b"b" * 1500, i, 2.5, None, "short", so.Color.RED, {1, 2}])
        if isinstance(x, (list, dict)):
            todo.append(x)
        nodes.append(x)
    local = r.random() < 0.4
    if r.random() < 0.5:
        # no cycle through a tuple, which would be refused
        targets = [x for x in nodes if not isinstance(x, tuple)]
    else:
        targets = nodes
    for j, x in enumerate(todo):
        m = r.choice([0, 1, 1, 2, 3, 6])
        for i in range(m):
            # cyclic only if any node may be referred to
            kid = r.choice(targets or [1])
            if local and isinstance(kid, (list, dict)) and any(kid is y for y in todo[j:]):
                kid = i
            if isinstance(x, list):
                x.append(kid)
            else:
                x[r.choice(keys) if r.random() < 0.3 else r.choice([i, f"k{i}", (i, "t"), "L" * 1500 + str(i), frozenset([i])])] = kid
    roots = [x for x in todo if x] or nodes
    root = r.choice(roots)
    if r.random() < 0.2:
        root = (root, r.choice(nodes), root)
    return root


def kids(x):
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, dict):
        return list(x) + list(x.values())
    return ()


def facts(root):
    """Number of nodes and references, whether one is shared, cyclic, and cyclic through a tuple."""
    seen, order, refs, shared = {}, [], 0, 0
    stack = [root]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        order.append(x)
        for k in kids(x):
            if isinstance(k, (list, dict, tuple, np.ndarray, so.Plain)):
                refs += 1
                shared += id(k) in seen
                stack.append(k)
    # strongly connected components, iteratively
    index, low, on, comp, n = {}, {}, set(), [], 0
    tuple_cycle = cyclic = False
    for start in order:
        if id(start) in index:
            continue
        work = [(start, iter(kids(start)))]
        index[id(start)] = low[id(start)] = n = n + 1
        comp.append(start)
        on.add(id(start))
        while work:
            x, it = work[-1]
            for k in it:
                if not isinstance(k, (list, dict, tuple)):
                    continue
                if id(k) not in index:
                    index[id(k)] = low[id(k)] = n = n + 1
                    comp.append(k)
                    on.add(id(k))
                    work.append((k, iter(kids(k))))
                    break
                if id(k) in on:
                    low[id(x)] = min(low[id(x)], index[id(k)])
            else:
                work.pop()
                if work:
                    low[id(work[-1][0])] = min(low[id(work[-1][0])], low[id(x)])
                if low[id(x)] == index[id(x)]:
                    group = []
                    while True:
                        y = comp.pop()
                        on.discard(id(y))
                        group.append(y)
                        if y is x:
                            break
                    loop = len(group) > 1 or any(k is x for k in kids(x))
                    cyclic |= loop
                    tuple_cycle |= loop and any(isinstance(y, tuple) for y in group)
    return len(order), refs, shared, cyclic, tuple_cycle


def same_graph(a, b):
    """None, or how the graph of b differs from that of a."""
    to, back = {}, {}
    keep = []
    stack = [(a, b, "root")]
    while stack:
        x, y, where = stack.pop()
        node = isinstance(x, NODES)
        if type(x) is not type(y) and not (type(x) is bytes and type(y) is memoryview):
            return f"{where}: {type(x).__name__} became {type(y).__name__}"
        if node:
            if id(x) in to or id(y) in back:
                if to.get(id(x)) == id(y) and back.get(id(y)) == id(x):
                    continue
                return f"{where}: " + ("what is one object became two" if id(x) in to else "two objects became one")
            to[id(x)], back[id(y)] = id(y), id(x)
            keep.append((x, y))
        elif isinstance(x, tuple):
            if (id(x), id(y)) in to:
                continue
            to[id(x), id(y)] = 1
            keep.append((x, y))
        if isinstance(x, (list, tuple)):
            if len(x) != len(y):
                return f"{where}: length {len(x)} became {len(y)}"
            stack.extend((p, q, f"{where}[{i}]"[-300:]) for i, (p, q) in enumerate(zip(x, y)))
        elif isinstance(x, dict):
            if [type(k) for k in x] != [type(k) for k in y] or any(p != q for p, q in zip(x, y) if type(p) is not so.Node):
                return f"{where}: keys changed"
            if isinstance(x, collections.defaultdict) and x.default_factory is not y.default_factory:
                return f"{where}: default_factory"
            stack.extend((p, q, f"{where}.key {i}"[-300:]) for i, (p, q) in enumerate(zip(x, y)) if type(p) is so.Node)
            stack.extend((x[p], y[q], f"{where}[{'Node' if type(p) is so.Node else str(p)[:10]}]"[-300:]) for p, q in zip(x, y))
        else:
            d = so.diff(x, y, where)
            if d:
                return d
    return None


class Judge(xo.StatelessActor):
    async def given(self, seed, n, *args, **kw):
        root = graph(random.Random(seed), n)
        twice, inner = args[1], kw["inner"]
        if isinstance(root, NODES) and (twice is not args[0] or inner[0] is not args[0]):
            return "the same object given twice became two"
        return same_graph(root, args[0])

    async def make(self, seed, n):
        root = graph(random.Random(seed), n)
        return [root, root]

    async def back(self, x):
        return [x, x]

    async def ok(self):
        return 1

    async def measure(self, x):
        d = 0
        while x:
            x, d = x[0], d + 1
        return d

    async def nested(self, n):
        return nest(n)


def nest(n):
    x = []
    for _ in range(n):
        x = [x]
    return x


def wire(header, buffers):
    return cloudpickle.loads(cloudpickle.dumps(header)), [bytes(b) for b in buffers]


async def spawned(x, threshold, ex):
    h, b = await serialize_with_spawn(x, spawn_threshold=threshold, executor=ex)
    return threshold, wire(h, b)


async def one(ctx, rng, ex, actors):
    seed, n = rng.randrange(2**40), rng.choice([2, 3, 4, 6, 10, 25, 80, 200])
    root = graph(random.Random(seed), n)
    nodes, refs, shared, cyclic, tuple_cycle = facts(root)
    detail = dict(graph_seed=seed, nodes=n)

    def judge(load, how):
        try:
            got = load()
        except AssertionError:
            # a tuple cannot be made before what it is made of
            ctx.check(tuple_cycle, "a graph without a cycle through a tuple was refused", how=how, **detail)
            ctx.count("refused")
            return
        d = same_graph(root, got)
        ctx.check(d is None, "a graph was not restored as it was", difference=d, how=how, **detail)

    h, b = serialize(root)
    ctx.check(len(pickle.dumps(h, 5)) < 3000 + 4000 * (nodes + refs), "what is shared is written more than once", **detail)
    hb = wire(h, b)
    judge(lambda: deserialize(*hb), "direct")
    # in steps continued by threads, several at a time
    ths = [rng.choice([1, 2, 3, 5, nodes, nodes + 1, rng.randint(1, nodes + refs + 3)]) for _ in range(rng.choice([1, 1, 4]))]
    for th, hb2 in await ctx.within(asyncio.gather(*[spawned(root, t, ex) for t in ths]), WAIT, "serializing"):
        judge(lambda: deserialize(*hb2), f"spawned at {th}")
        ctx.count("spawned", hb2[0][0].get("_N") is not None)
    data = b"".join(bytes(x) for x in await AioSerializer(root).run())
    try:
        got = await AioDeserializer(Reader(data)).run()
    except AssertionError:
        got = None
        ctx.check(tuple_cycle, "a graph without a cycle through a tuple was refused", how="stream", **detail)
    else:
        d = same_graph(root, got)
        ctx.check(d is None, "a graph was not restored as it was", difference=d, how="stream", **detail)
    if actors:
        a = rng.choice(actors)
        how = rng.choice(["given", "made", "back"])
        try:
            if how == "given":
                d = await ctx.within(a.given(seed, n, root, root, inner=[root]), WAIT, "a call")
            else:
                got = await ctx.within(a.make(seed, n) if how == "made" else a.back(root), WAIT, "a call")
                node = isinstance(root, NODES)
                d = "the same object returned twice became two" if node and got[0] is not got[1] else same_graph(root, got[0])
            ctx.check(d is None, "a graph was not restored as it was", difference=d, how=how, **detail)
            ctx.count("sent")
        except AssertionError:
            ctx.check(tuple_cycle, "a graph without a cycle through a tuple was refused", how=how, **detail)
            ctx.count("refused_by_calls")
            ctx.check(await ctx.within(a.ok(), WAIT, "a call") == 1, "an actor does not answer after a refused graph", **detail)
    ctx.count("cyclic", cyclic)
    ctx.count("shared", bool(shared))
    ctx.case((nodes, refs, shared, cyclic, tuple_cycle), nontrivial=bool(shared or cyclic), sample=dict(nodes=nodes, references=refs, shared=shared, cyclic=cyclic))


async def deep(ctx, rng, actors):
    """Doubling references and depth."""
    x = [1]
    for i in range(60):
        x = rng.choice([lambda: [x, x], lambda: (x, x), lambda: {"a": x, "b": x}, lambda: so.MyList([x, x])])()
    h, b = serialize(x)
    ctx.check(len(cloudpickle.dumps(h)) < 20000, "what is shared is written more than once")
    y = deserialize(*wire(h, b))
    for i in range(60):
        p, q = y.values() if isinstance(y, dict) else y
        ctx.check(p is q, "what is one object became two", level=i)
        y = p
    a = rng.choice(actors)
    n = rng.choice([50, 200])
    ctx.check(await ctx.within(a.measure(nest(n)), WAIT, "a call") == n, "a deeply nested list changed", depth=n)
    # too deep: refused or right, and nothing else is harmed
    for n in (2000, 30000):
        for f in (lambda: a.measure(nest(n)), lambda: a.nested(n)):
            try:
                got = await ctx.within(f(), WAIT, "a call")
                if isinstance(got, list):
                    got = await Judge.measure(None, got)
                ctx.check(got == n, "a deeply nested list changed", depth=n, got=got)
                ctx.count("deep_arrived")
            except (RecursionError, MemoryError, pickle.PicklingError, SendMessageFailed):
                ctx.count("deep_refused")
            ctx.check(await ctx.within(a.ok(), WAIT, "a call") == 1, "an actor does not answer after a deep value")
    ctx.case(("deep",), nontrivial=True)


async def run(ctx):
    rng = ctx.rng
    ex = ThreadPoolExecutor(4)
    async with pools.pool(n_process=2) as pool:
        actors = [await xo.create_actor(Judge, address=x) for x in pools.subs(pool)]
        ctx.phase("deep")
        await deep(ctx, rng, actors)
        n = 0
        while n < ctx.n(3000, 10**9) and ctx.left(12, 240):
            n += 1
            if n % 100 == 0:
                ctx.phase(f"graph {n}")
            await one(ctx, rng, ex, actors if rng.random() < 0.3 else None)
    ex.shutdown()
