"""C27: a program that comes to its end ends, whatever of its calls and pools is still going on."""
import asyncio
import json
import os
import signal
import sys
import time

import xoscar as xo

from .. import pools
from .c17 import children, still_there

ID = "C27"
LEVEL = "exploration"
RULE = ("programs of one to three loops, in the main or another thread, with pools of their own or as clients, in which calls of 14 kinds are pending, ended by return, exception, exit, cancellation or SIGINT, pools stopped or not; "
        "the program must end, as its main says, with each loop's outcome right and no process left, and the pools it used must go on; distinct = (parts with their ends, pending kinds); non-trivial = something pending or a pool not stopped")
WAIT = 60
KINDS = ["call", "stubborn", "fails", "tell", "batch", "hop", "yield", "queue", "stream", "born", "dying", "timeout", "shield", "group"]
ENDS = ["return", "raise", "exit", "cancel", "signal"]
NAMES = {"return": "int", "raise": "Boom", "exit": "SystemExit", "cancel": "CancelledError"}


def describe(rng, addresses, n):
    parts = []
    m = rng.choice([1, 1, 1, 2, 3])
    for i in range(m):
        last = i == m - 1
        own = rng.random() < 0.65
        thread = rng.random() < 0.2
        end = ENDS[n % len(ENDS)] if last and n < len(ENDS) else rng.choice(ENDS if last and not thread else ENDS[:4])
        if end == "signal":
            thread = False
        parts.append(dict(
            pool=rng.choice([0, 1, 1, 2]) if own else None, addresses=addresses, thread=thread, end=end,
            pending=[rng.choice(KINDS) for _ in range(rng.choice([0, 1, 1, 2, 4]))], loose=rng.random() < 0.4,
            # the next loop of a process can use pools if the one before was stopped
            time=rng.choice([0, 0.001, 0.05, 0.3, 0.5]), stop=(not last) or rng.random() < 0.3))
    return dict(parts=parts)


async def one(ctx, rng, addresses, n, later):
    spec = describe(rng, addresses, n)
    ctx.phase(f"program {n}")
    env = dict(os.environ)
    outs = os.path.join(ctx.scratch, f"out{n}.txt")
    errs = os.path.join(ctx.scratch, f"err{n}.txt")
    p = await asyncio.create_subprocess_exec(sys.executable, "-m", "vf.endprog", json.dumps(spec), env=env, stdin=asyncio.subprocess.DEVNULL, stdout=open(outs, "wb"), stderr=open(errs, "wb"),
                                             preexec_fn=lambda: signal.signal(signal.SIGINT, signal.default_int_handler))
    kids = set()

    def fresh():
        with open(outs, errors="replace") as f:
            return [x.strip() for x in f]

    async def look():
        sent = False
        while True:
            kids.update(children(p.pid))
            if "SIGNAL" in fresh() and not sent:
                sent = True
                if rng.random() < 0.5:
                    await asyncio.sleep(rng.choice([0.01, 0.2]))
                os.kill(p.pid, signal.SIGINT)
            await asyncio.sleep(0.03)

    t0 = time.monotonic()
    looking = asyncio.ensure_future(look())
    try:
        await asyncio.wait_for(p.wait(), 90)
    except asyncio.TimeoutError:
        out = open(errs, errors="replace").read()[-3000:]
        for q, _ in children(p.pid):
            os.kill(q, signal.SIGKILL)
        p.kill()
        ctx.violation("a program that came to its end did not end", spec=spec, lines=fresh(), stderr=out)
    finally:
        looking.cancel()
    lines = fresh()
    err = open(errs, errors="replace").read()[-2500:]
    last = spec["parts"][-1]
    names = [NAMES[q["end"]] for q in spec["parts"][:-1]]
    got = [x.split()[1] for x in lines if x.startswith("PART")]
    ctx.check(got[: len(names)] == names, "a loop of a program had another outcome", got=got, want=names, spec=spec, stderr=err)
    code = {"return": [0], "raise": [1], "exit": [3], "cancel": [1], "signal": [-2, 130, 1]}[last["end"]]
    ctx.check("READY" in lines, "a program did not come to its end", lines=lines, spec=spec, stderr=err)
    ctx.check(p.returncode in code, "a program ended otherwise than its main did", exit=p.returncode, want=code, spec=spec, lines=lines, stderr=err)
    later.append((kids, spec))
    ctx.count("programs")
    ctx.count("processes_watched", len(kids))
    if os.environ.get("VF_VERBOSE"):
        print("TOOK", round(time.monotonic() - t0, 1), json.dumps([{k: v for k, v in q.items() if k != "addresses"} for q in spec["parts"]]), flush=True)
    ctx.extra["slowest_end_s"] = round(max(ctx.extra.get("slowest_end_s", 0), time.monotonic() - t0), 1)
    ctx.case(tuple((q["pool"], q["thread"], q["end"], q["stop"], tuple(sorted(set(q["pending"])))) for q in spec["parts"]), nontrivial=any(q["pending"] or (q["pool"] is not None and not q["stop"]) for q in spec["parts"]),
             sample=spec["parts"][-1])


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=1) as pool:
        addresses = pools.addresses(pool)
        n, later = 0, []
        while n < 24 or ctx.left(20, 300):
            width = rng.choice([2, 4, 5])
            await asyncio.gather(*(one(ctx, rng, addresses, n + i, later) for i in range(width)))
            n += width
            for a in addresses:
                ctx.check(await ctx.within(xo.has_actor(xo.core.ActorRef(a, b"nobody")), WAIT, "a call to a pool whose clients ended") is False, "wrong answer")
        for kids, spec in later:
            for i in range(800):
                left = still_there(kids)
                if not left:
                    break
                await asyncio.sleep(0.05)
            ctx.check(not left, "processes of a program outlive it", left=[str(x) for x in left], spec=spec)
