"""C09: references name actors: they compare, travel, and reach whoever has the name now."""
import asyncio
import copy
import pickle

import xoscar as xo
from xoscar.core import ActorRef

from .. import pools
from .. import refops as rf

ID = "C09"
LEVEL = "exploration"
RULE = ("random histories over a set of names: actors created, destroyed and created again (from clients and actors), references to them looked up at their own "
        "address or the main pool's, passed through chains of actors, pickled, kept (with bound methods) in every process, compared and called; a model says which "
        "incarnation answers; distinct = (operation, relation of the places involved, state of the name, kind of reference)")
UIDS = ["plain", "ünï-中", b"bytes", b"\x00\xff raw", "x" * 200, "with/slash:and:colon", " padded ", b"\n\t ends \x00", "Case", "case"]


def ub(u):
    return u.encode() if isinstance(u, str) else u


async def run(ctx):
    rng = ctx.rng
    rnd = 0
    async with pools.pool(n_process=2) as pool, pools.inproc_pool(n_process=1) as tpool:
        addrs = pools.addresses(pool)
        taddrs = pools.addresses(tpool)
        keepers = [await xo.create_actor(rf.Node, f"keeper{i}", address=a, uid=f"keeper{i}") for i, a in enumerate(addrs)]
        while rnd < ctx.n(3, 40) or ctx.left(12, 240):
            rnd += 1
            ctx.phase(f"round {rnd}")
            names = {}  # (address, uid bytes) -> token of who has the name now, or None
            refs = []  # (ref, key, kind)
            kept = []  # (keeper index, name, key, local)
            n = 0

            def odd(key):
                """Main pool passes on what it is asked for to the sub pool that has the uid: a dead
                name at main pool's address may reach the one of a sub pool, or not."""
                return names[key] is None and key[0] == addrs[0] and any(t and u == key[1] and b in addrs for (b, u), t in names.items())

            async def add_ref(r, key, kind):
                ctx.check(r.address == key[0] and r.uid == key[1], "a reference names another actor", want=key, got=repr(r), kind=kind)
                refs.append((r, key, kind))

            for step in range(ctx.n(60, 120)):
                n += 1
                live = [k for k, t in names.items() if t]
                dead = [k for k, t in names.items() if not t]
                op = rng.choice(["create", "call", "call", "keep", "keep", "callkept", "callkept", "callkept", "lookup", "lookup", "destroy", "again", "again", "travel", "travel", "compare", "missing"])
                d = dict(step=step, op=op)
                if op == "create" or (op == "again" and not dead) or not names:
                    a = rng.choice(addrs + taddrs[:1])
                    u = rng.choice([f"n{rnd}.{n}", rng.choice(UIDS)])
                    key = (a, ub(u))
                    if any(names.get((b, ub(u))) for b in addrs + taddrs):
                        continue  # (which of two the main pool gives for one uid is not specified)
                    tok = f"t{rnd}.{n}"
                    how = rng.choice(["client", "actor"]) if a in addrs else "client"
                    if how == "client":
                        r = await xo.create_actor(rng.choice([rf.Node, rf.NamedNode]), tok, address=a, uid=u)
                    else:
                        r = await rng.choice(keepers).create(tok, a, u)
                    names[key] = tok
                    await add_ref(r, key, "created by " + how)
                elif op == "again":
                    key = rng.choice(dead)
                    if any(names.get((b, key[1])) for b in addrs + taddrs):
                        continue
                    tok = f"t{rnd}.{n}"
                    r = await xo.create_actor(rng.choice([rf.Node, rf.Node2, rf.NamedNode]), tok, address=key[0], uid=key[1])
                    names[key] = tok
                    await add_ref(r, key, "created again")
                elif op == "destroy" and live:
                    key = rng.choice(live)
                    ks = [k for k in kept if k[2] == key]
                    how = rng.choice(["client", "ref", "kept"])
                    if how == "kept" and ks:
                        i, nm, _, _ = rng.choice(ks)
                        await keepers[i].destroy_kept(nm)
                    elif how == "ref":
                        await rng.choice([r for r, k, _ in refs if k == key]).destroy()
                    else:
                        await xo.destroy_actor(rng.choice([r for r, k, _ in refs if k == key]))
                    names[key] = None
                    ctx.count("destroyed")
                elif op == "call":
                    r, key, kind = rng.choice(refs)
                    if odd(key):
                        continue
                    o = await ctx.within(rf.outcome(rf.call(r)), 30, "a call by a reference")
                    want = ["ok", names[key]] if names[key] else ["gone", None]
                    ctx.check(o == want, "a reference did not reach the actor that has the name now", kind=kind, got=o, want=want, **d)
                    ctx.case(("call", kind, bool(names[key]), key[0] == addrs[0]))
                    ctx.count("calls_" + o[0])
                elif op == "keep":
                    r, key, kind = rng.choice(refs)
                    i = rng.randrange(len(keepers))
                    nm = f"k{rnd}.{n}"
                    if key[0] in taddrs:
                        continue
                    if rng.random() < 0.5 and names[key]:
                        a = rng.choice([key[0], addrs[0]]) if key[0] in addrs else key[0]
                        loc = await keepers[i].look_up_and_keep(nm, a, key[1] if rng.random() < 0.5 or b"\xff" in key[1] else key[1].decode())
                    else:
                        loc = await keepers[i].keep(nm, r)
                    kept.append((i, nm, key, loc))
                    ctx.count("kept_local" if loc else "kept_remote")
                elif op == "callkept" and kept:
                    i, nm, key, loc = rng.choice(kept)
                    if odd(key):
                        continue
                    cached = rng.random() < 0.5
                    o = await ctx.within(keepers[i].try_call(nm, cached), 30, "a call by a kept reference")
                    want = ["ok", names[key]] if names[key] else ["gone", None]
                    ctx.check(o == want, "a kept reference did not reach the actor that has the name now", local=loc, cached=cached, got=o, want=want, **d)
                    h = await keepers[i].has_kept(nm)
                    ctx.check(h is bool(names[key]), "has_actor does not say whether the name is taken", got=h, want=bool(names[key]), **d)
                    ctx.case(("kept", loc, cached, bool(names[key]), i == 0), sample=dict(op="call kept", local=loc, bound_method=cached, outcome=o))
                    ctx.count("calls_kept_" + o[0])
                elif op == "lookup" and live:
                    key = rng.choice(live)
                    a = rng.choice([key[0], addrs[0]]) if key[0] in addrs else key[0]
                    u = key[1] if rng.random() < 0.5 or b"\xff" in key[1] else key[1].decode()
                    who = rng.choice(["client", "actor"]) if key[0] in addrs else "client"
                    if who == "client":
                        r = await xo.actor_ref(a, u) if rng.random() < 0.5 else await xo.actor_ref(ActorRef(a, u))
                    else:
                        r = await rng.choice(keepers).look_up(a, u)
                    await add_ref(r, key, f"looked up by {who} at {'its' if a == key[0] else 'main'} address")
                elif op == "travel":
                    r, key, kind = rng.choice(refs)
                    t = rng.choice(["pickle", "copy", "path", "path", "nested", "own"])
                    if key[0] in taddrs and t != "pickle":
                        continue
                    if t == "pickle":
                        r2 = pickle.loads(pickle.dumps(r, protocol=rng.choice([2, 4, 5])))
                    elif t == "copy":
                        if not names[key]:
                            continue
                        r2 = rng.choice([copy.copy, copy.deepcopy])(r)
                    elif t == "path":
                        path = [rng.choice(keepers) for _ in range(rng.randint(1, 3))]
                        seen = []
                        for p in path:  # an actor does not call itself while it runs
                            if p not in seen:
                                seen.append(p)
                        r2 = await seen[0].forward(r, seen[1:])
                    elif t == "nested":
                        r2 = (await rng.choice(keepers).echo({"a": [1, (r, {"b": r})]}))["a"][1]
                        ctx.check(r2[0] == r2[1]["b"], "two travelled copies of one reference differ")
                        r2 = r2[0]
                    elif names[key]:
                        r2 = await r.own_ref()
                        w = await r.where()
                        ctx.check(tuple(w) == key, "an actor does not know its own address and uid", got=w, want=key)
                    else:
                        continue
                    ctx.check(r2 == r and hash(r2) == hash(r), "a travelled reference is not equal to the original", how=t, got=repr(r2), want=repr(r))
                    await add_ref(r2, key, "travelled " + t)
                    ctx.count("travelled")
                elif op == "compare":
                    r, key, kind = rng.choice(refs)
                    r2, key2, kind2 = rng.choice(refs)
                    ctx.check((r == r2) == (key == key2) and (r != r2) == (key != key2), "references are equal exactly when they name the same actor", a=repr(r), b=repr(r2))
                    ctx.check(key != key2 or (hash(r) == hash(r2) and {r: 1}.get(r2) == 1), "equal references have different hashes")
                    ctx.check(r != (r.address, r.uid) and r != None, "a reference is equal to something that is none")  # noqa: E711
                    if kept:
                        i, nm, k, loc = rng.choice(kept)
                        same = await keepers[i].compare_kept(nm, r)
                        eq = k == key
                        ctx.check(same == (eq, eq, eq or same[2], 1 if eq else None, 1 if eq else 2), "references are equal exactly when they name the same actor", got=same, want=eq, local=loc)
                    ctx.count("compared")
                elif op == "missing":
                    a = rng.choice(addrs + taddrs[:1])
                    u = rng.choice([f"none{n}"] + [k[1] for k in dead if k[0] == a])
                    o = await rf.outcome(rng.choice([xo.actor_ref, rng.choice(keepers).look_up] if a in addrs else [xo.actor_ref])(a, u))
                    if a in addrs and any(t and k[1] == ub(u) and k[0] in addrs for k, t in names.items()):
                        continue  # a pool may find it in the other processes of its group
                    ctx.check(o[0] == "gone", "looking up a name nobody has did not fail with ActorNotExist", got=o, uid=u, at=a, places=str(addrs + taddrs), names=str([k for k, t in names.items() if k[1] == ub(u)]))
                    ctx.check(await xo.has_actor(ActorRef(a, u)) is False, "has_actor of a name nobody has", uid=u)
                    ctx.count("lookups_missing")
            for key, t in names.items():
                if t:
                    await xo.destroy_actor(ActorRef(*key))
