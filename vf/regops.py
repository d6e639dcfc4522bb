"""Registry operations (create / destroy / has / ref / call) as timed records, and their checker."""
import asyncio
import time

import xoscar as xo
from xoscar.backends.allocate_strategy import AddressSpecified


class Reg(xo.Actor):
    def __init__(self, token, d1=0.0, d2=0.0):
        super().__init__()
        self.token = token
        self.d1, self.d2 = d1, d2

    async def __post_create__(self):
        if self.d1:
            await asyncio.sleep(self.d1)

    async def __pre_destroy__(self):
        if self.d2:
            await asyncio.sleep(self.d2)

    async def whoami(self, d=0.0):
        if d:
            await asyncio.sleep(d)
        return self.token


async def do_op(op):
    """op: dict(kind, uid, via, home, ...) -> the same with t0, t1, out."""
    if op.get("gap"):
        await asyncio.sleep(op["gap"])
    r = dict(op)
    r["t0"] = time.monotonic_ns()
    try:
        k = op["kind"]
        if k == "create":
            kw = {}
            if op["via"] != op["home"]:
                kw["allocate_strategy"] = AddressSpecified(op["home"])
            await xo.create_actor(Reg, op["token"], op.get("d1", 0.0), op.get("d2", 0.0), uid=op["uid"], address=op["via"], **kw)
            r["out"] = "ok"
        elif k == "destroy":
            await xo.destroy_actor(xo.core.ActorRef(op["via"], op["uid"]))
            r["out"] = "ok"
        elif k == "has":
            r["out"] = bool(await xo.has_actor(xo.core.ActorRef(op["via"], op["uid"])))
        elif k == "ref":
            ref = await xo.actor_ref(op["via"], op["uid"])
            r["out"] = ref.address == op["home"] or f"ref to {ref.address}"
        elif k == "call":
            ref = await xo.actor_ref(op["via"], op["uid"]) if op.get("resolve") else xo.core.ActorRef(op["via"], op["uid"])
            r["out"] = ["tok", await ref.whoami(op.get("d", 0.0))]
    except xo.ActorNotExist:
        r["out"] = "NotExist"
    except xo.ActorAlreadyExist:
        r["out"] = "AlreadyExist"
    except BaseException as e:
        r["out"] = "ERR " + type(e).__name__ + ": " + str(e)[:200]
    r["t1"] = time.monotonic_ns()
    return r


class RegDriver(xo.StatelessActor):
    """Runs programs of operations from inside a pool."""

    async def run(self, progs):
        return await asyncio.gather(*[run_prog(p) for p in progs])


async def run_prog(prog):
    return [await do_op(op) for op in prog]


def linearizable(recs, initial=None):
    """Wing & Gong search over one uid's records.  State: None or the token alive.

    Successful creates and destroys, and calls that answered, must take effect at one
    point between invocation and response.  Answers "exists" / "does not exist"
    (has, ref, refused operations) bind only where no successful create or destroy is
    under way, as a half-done operation may be seen either way.
    Returns (ok, final_states, explored_states, ops_bound).
    """
    # a create that answers NotExist was destroyed before it was complete: it took effect nevertheless
    muts = [r for r in recs if r["out"] == "ok" or (r["kind"] == "create" and r["out"] == "NotExist")]
    ops = []
    for r in recs:
        o = r["out"]
        if o == "ok" or (r["kind"] == "create" and o == "NotExist"):
            ops.append((r["t0"], r["t1"], r["kind"], r.get("token")))
        elif isinstance(o, (list, tuple)):
            ops.append((r["t0"], r["t1"], "saw", o[1]))
        else:
            want = {True: True, False: False, "NotExist": False, "AlreadyExist": True}[o]
            if any(m["t0"] <= r["t1"] and r["t0"] <= m["t1"] for m in muts):
                continue
            ops.append((r["t0"], r["t1"], "exists", want))
    ops.sort()
    n = len(ops)
    seen = set()
    finals = set()
    # a node: (set of done ops as bitmask, state)
    stack = [(0, initial)]
    full = (1 << n) - 1
    while stack:
        node = stack.pop()
        if node in seen:
            continue
        seen.add(node)
        done, st = node
        if done == full:
            finals.add(st)
            continue
        # minimal ops: invoked before the earliest response among the pending
        first = min(ops[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1:
                continue
            t0, t1, k, a = ops[i]
            if t0 > first:
                break
            if k == "create":
                if st is None:
                    stack.append((done | 1 << i, a))
            elif k == "destroy":
                if st is not None:
                    stack.append((done | 1 << i, None))
            elif k == "saw":
                if st == a:
                    stack.append((done | 1 << i, st))
            elif (st is not None) == a:
                stack.append((done | 1 << i, st))
        if len(seen) > 400000:
            return None, finals, len(seen), n
    return bool(finals), finals, len(seen), n
