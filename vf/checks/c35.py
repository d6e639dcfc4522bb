"""C35: virtual environments are made, filled and removed as asked."""
import asyncio
import json
import os
import sys
import tempfile

ID = "C35"
LEVEL = "exploration"
RULE = ("random lists of requirements (extras, specifiers, file URLs, names in any spelling, placeholders of system packages) under random conditions (standard, CUDA, NPU and variable markers; "
        "and, or, not, parentheses) installed by the real installer from an index of tiny packages into environments made anew, on machines with and without (stand-in) CUDA; the contents of the "
        "environment are compared with every solution of a model that evaluates the conditions itself; beside, a stand-in installer that fails, prints, and is cancelled; "
        "distinct = (mode, number of requirements, of those that apply, possible); non-trivial = a condition decided")


async def child(ctx, mode, seed, seconds, least):
    d = tempfile.mkdtemp(prefix="venv-", dir=ctx.scratch)
    os.chmod(ctx.scratch, 0o711)
    os.chown(d, 65534, 65534)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("UV_", "XOSCAR_UV", "VIRTUAL_ENV", "XOSCAR_VIRTUAL"))}
    env.update(HOME=d, TMPDIR=d, UV_CACHE_DIR=d + "/cache", UV_OFFLINE="1", UV_NO_INDEX="1", UV_PYTHON_DOWNLOADS="never", UV_NO_CONFIG="1", UV_LINK_MODE="copy", PYTHONDONTWRITEBYTECODE="1",
               PATH=os.path.dirname(sys.executable) + os.pathsep + env["PATH"])
    spec = json.dumps(dict(dir=d, seed=seed, mode=mode, seconds=seconds, least=least))
    p = await asyncio.create_subprocess_exec(sys.executable, "-m", "vf.venvops", spec, env=env, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                                             stdin=asyncio.subprocess.DEVNULL, stdout=asyncio.subprocess.PIPE, stderr=asyncio.subprocess.PIPE, user=65534, group=65534, extra_groups=[], limit=1 << 24)
    err = asyncio.ensure_future(p.stderr.read())
    done = False
    try:
        async with asyncio.timeout(seconds + 300):
            async for line in p.stdout:
                m = json.loads(line)
                if "violation" in m:
                    ctx.violation(m["violation"], mode=mode, **m["detail"])
                elif "count" in m:
                    ctx.count(m["count"])
                elif "case" in m:
                    ctx.case(tuple(m["case"]), nontrivial=m["nontrivial"], sample=m["sample"])
                done = done or "done" in m
    except asyncio.TimeoutError:
        ctx.violation("making and filling environments did not end", mode=mode)
    finally:
        if p.returncode is None:
            p.kill()
        await p.wait()
    ctx.check(done, "the process that makes environments died", mode=mode, code=p.returncode, stderr=(await err)[-1500:].decode(errors="replace"))


async def run(ctx):
    ctx.phase("environments")
    jobs = [child(ctx, "real", ctx.rng.random(), ctx.n(25, 300), ctx.n(15, 100)) for _ in range(ctx.n(3, 6))]
    jobs.append(child(ctx, "stand-in", ctx.rng.random(), ctx.n(20, 200), ctx.n(20, 100)))
    await asyncio.gather(*jobs)
