"""Common part of every check: context, oracles' reporting, watchdog, evidence.

A check module defines

    ID     property id
    RULE   how cases are made and what makes one non-trivial (for the evidence)
    LEVEL  'exploration' or 'fault_enumeration'
    def run(ctx): ...        (or async def run(ctx))

It reports what its monitors *observed* (ctx.case / ctx.count) and violations
(ctx.violation).  It never decides from how long something took, except that an
operation the property says completes must complete within a bound that is three
orders of magnitude above its normal duration (ctx.within).
"""
from __future__ import annotations

import asyncio
import faulthandler
import hashlib
import json
import os
import signal
import random
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken; carries everything needed to replay."""


class Hang(Violation):
    pass


def short(o, n=400):
    try:
        s = repr(o)
    except Exception as e:  # pragma: no cover
        s = f"<unreprable {type(o).__name__}: {e!r}>"
    return s if len(s) <= n else s[: n - 3] + "..."


class Ctx:
    def __init__(self, pid, tier, seed, scratch, out, rule, level):
        self.id = pid
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = seed
        self.scratch = scratch
        self.out = out
        self.rule = rule
        self.level = level
        self.rng = random.Random(f"{pid}/{seed}")
        self.t0 = time.monotonic()
        self.evaluations = 0
        self._distinct = set()
        self.observed = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.extra = {}
        self._last_beat = self._last_step = time.monotonic()
        self._raised = None  # what a bounded operation ended with, if nothing was done since
        self._phase = "start"
        self._stall = 90.0
        self._known_entries = load_known(pid)

    # -- budget ---------------------------------------------------------
    def elapsed(self):
        return time.monotonic() - self.t0

    def budget(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, quick, thorough):
        """True while the tier's time budget (seconds from start) is not used."""
        return self.elapsed() < self.budget(quick, thorough)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- observations -----------------------------------------------------
    def count(self, name, k=1):
        self.observed[name] = self.observed.get(name, 0) + k
        self._step()

    def case(self, key, nontrivial=True, sample=None):
        """One evaluated case; `key` identifies it up to equivalence."""
        self.evaluations += 1
        self._step()
        if nontrivial:
            if not isinstance(key, (str, bytes)):
                key = repr(key)
            if isinstance(key, str):
                key = key.encode("utf-8", "replace")
            self._distinct.add(hashlib.blake2b(key, digest_size=8).digest())
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample if isinstance(sample, (dict, str)) else short(sample))

    def phase(self, name):
        if os.environ.get("VF_VERBOSE"):
            print(f"{time.monotonic() - self.t0:8.2f} {name}", flush=True)
        self._phase = name
        self._last_beat = time.monotonic()
        self._step()

    def _step(self):
        self._last_step = time.monotonic()
        self._raised = None

    beat = phase

    # -- verdicts ---------------------------------------------------------
    def violation(self, what, **detail):
        """Record a violation and abort the run."""
        self.record_violation(what, **detail)
        raise Violation(what)

    def record_violation(self, what, **detail):
        detail = {k: (v if isinstance(v, (str, int, float, list, dict, type(None))) else short(v, 2000)) for k, v in detail.items()}
        self.violations.append({"what": what, "phase": self._phase, "detail": detail})

    def check(self, cond, what, **detail):
        if not cond:
            self.violation(what, **detail)

    def known_finding(self, key, still_fails, what):
        """A deterministic probe of one listed finding.

        Listed and failing: KNOWN-FINDING line. Failing but not listed: violation.
        Not failing: silent (a listed finding that was repaired suppresses nothing).
        """
        self.count("known_finding_probes")
        if not still_fails:
            return
        if key in self._known_entries:
            self.known.append(f"{key}: {self._known_entries[key]}")
        else:
            self.violation(what, finding_key=key)

    def is_known(self, key):
        return key in self._known_entries

    async def within(self, aw, seconds, what, **detail):
        """Await `aw`; a property that promises completion is violated otherwise."""
        task = asyncio.ensure_future(aw)
        done, _ = await asyncio.wait([task], timeout=seconds)
        if not done:
            stack = []
            for t in asyncio.all_tasks():
                if t is asyncio.current_task():
                    continue
                fr = t.get_stack(limit=3)
                if fr:
                    stack.append(f"{t.get_name()}: " + " <- ".join(f"{f.f_code.co_name}:{f.f_lineno}" for f in reversed(fr)))
            task.cancel()
            self.record_violation(f"{what}: did not complete within {seconds}s", tasks=stack[:30], **detail)
            raise Hang(what)
        self._step()
        try:
            return task.result()
        except BaseException as e:
            self._raised = e
            raise

    # -- results ----------------------------------------------------------
    def write(self, status):
        data = {
            "status": status,
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": dict(
                evaluations=self.evaluations,
                distinct_nontrivial=len(self._distinct),
                rule=self.rule,
                samples=self.samples,
                observed=self.observed,
                **self.extra,
            ),
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 3),
            "violations": self.violations,
            "known": self.known,
        }
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(data, f, default=short)
        os.replace(tmp, self.out)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = {}
    try:
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                # finding: property=<id> key=<key> <what fails>
                parts = line[len("finding:"):].strip().split(None, 2)
                if len(parts) == 3 and parts[0] == f"property={pid}" and parts[1].startswith("key="):
                    res[parts[1][4:]] = parts[2]
    except FileNotFoundError:
        pass
    return res


def through_xoscar(e):
    import errno

    if isinstance(e, OSError) and e.errno in (errno.EADDRINUSE, errno.ENOMEM, errno.EMFILE, errno.ENOSPC, errno.EAGAIN):
        return False  # the sandbox, not the code
    if isinstance(e, MemoryError):
        return False
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if type(e).__module__.startswith("xoscar") or "[address=" in str(e):
            return True
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if "xoscar/" in fn and not fn.startswith("/verif"):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def _watchdog(ctx, loop_holder):
    """Turns a blocked interpreter / event loop into a reported hang."""
    # even one that never lets any other thread run
    stuck = open(ctx.out + ".stuck", "w")
    while True:
        faulthandler.dump_traceback_later(150, exit=True, file=stuck)
        time.sleep(1.0)
        if ctx.violations:
            # decided; whoever cleans up after it may wait for what hangs
            ctx._decided = getattr(ctx, "_decided", None) or time.monotonic()
            if time.monotonic() - ctx._decided > 20:
                ctx.write("violation")
                os._exit(1)
        still, e = time.monotonic() - ctx._last_step, ctx._raised
        if still > (90 if e is not None else 240) and not ctx.violations:
            # the loop turns, but the workload does not go on; after an error it may wait in its own cleanup
            if e is None or through_xoscar(e):
                ctx.record_violation(f"nothing went on for {still:.0f}s in phase {ctx._phase!r}" + (f" after {type(e).__name__}: {short(str(e), 300)}" if e is not None else ""),
                                     traceback="".join(traceback.format_exception(e))[-3000:] if e is not None else None)
                ctx.write("violation")
                os._exit(1)
            traceback.print_exception(e)
            ctx.extra["error"] = "".join(traceback.format_exception(e))[-3000:]
            ctx.write("error")
            os._exit(3)
        idle = time.monotonic() - ctx._last_beat
        if idle > ctx._stall:
            path = ctx.out + ".stacks"
            with open(path, "w") as f:
                faulthandler.dump_traceback(file=f, all_threads=True)
            with open(path) as f:
                st = f.read()
            ctx.record_violation(
                f"no progress for {idle:.0f}s in phase {ctx._phase!r} (execution hung)", stacks=st[-3000:]
            )
            ctx.write("violation")
            os._exit(1)


async def _async_main(mod, ctx):
    async def beat():
        # only says the loop turns; phases have their own bounds
        while True:
            await asyncio.sleep(1)
            ctx._last_beat = time.monotonic()

    t = asyncio.create_task(beat())
    try:
        await mod.run(ctx)
    except Violation:
        # decided: do not wait for whatever else of the workload still runs
        ctx.write("violation")
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(1)
    finally:
        t.cancel()


def child_main(argv):
    import importlib

    pid, out, scratch = argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    faulthandler.enable()
    # shells start background programs with SIGINT ignored, which children would inherit
    signal.signal(signal.SIGINT, signal.default_int_handler)
    mod = importlib.import_module(f"vf.checks.{pid.lower()}")
    ctx = Ctx(pid, tier, seed, scratch, out, mod.RULE, mod.LEVEL)
    ctx._stall = getattr(mod, "STALL", 90.0)
    threading.Thread(target=_watchdog, args=(ctx, None), daemon=True).start()
    status = "ok"
    try:
        if asyncio.iscoroutinefunction(mod.run):
            asyncio.run(_async_main(mod, ctx))
        else:
            mod.run(ctx)
        if ctx.violations:
            status = "violation"
    except Violation:
        status = "violation"
    except BaseException:
        # An exception nobody expected, out of the code under test or the harness.
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        e = sys.exc_info()[1]
        if ctx.violations:
            status = "violation"
        elif through_xoscar(e):
            # The workloads only contain operations that must succeed (or whose failure
            # is caught and judged), so an error out of the code under test breaks them.
            ctx.record_violation(f"operation that must succeed raised {type(e).__name__}: {short(str(e), 300)}", traceback=tb[-3000:])
            status = "violation"
        else:
            status = "error"
            ctx.extra["error"] = tb[-3000:]
    ctx.write(status)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit({"ok": 0, "violation": 1, "error": 3}[status])


if __name__ == "__main__":
    child_main(sys.argv[1:])
