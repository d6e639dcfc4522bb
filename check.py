#!/usr/bin/env python3
"""check.py <ID>: rebuild /repo, run one property's check, write evidence, report.

exit 0 property held on everything explored; 1 with a VIOLATION line; 2 no answer.
"""
import ctypes
import fcntl
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
EVID = os.path.join(VERIF, "evidence")
HARD_LIMIT = {"quick": 780, "thorough": 7200}


def build():
    """Rebuild xoscar's extensions from /repo's working tree (serialised by a lock)."""
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("build failed")
        sys.exit(2)


def descendants():
    """Live processes below us (we are a subreaper, so orphans land on us)."""
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    st = f.read()
            except OSError:
                continue
            ppid = int(st.rsplit(")", 1)[1].split()[1])
            kids.setdefault(ppid, []).append(int(d))
    out, todo = [], [os.getpid()]
    while todo:
        for k in kids.get(todo.pop(), []):
            out.append(k)
            todo.append(k)
    return out


def reap_all():
    for _ in range(50):
        ds = descendants()
        if not ds:
            return
        for p in ds:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        time.sleep(0.05)


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for a in sys.argv[2:]:
        if a.startswith("--seed="):
            seed = int(a[7:])
    t0 = time.time()
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER
    except Exception:
        pass
    build()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and False else None
    scratch = tempfile.mkdtemp(prefix=f"vf-{pid.lower()}-", dir=base)
    out = os.path.join(scratch, "result.json")
    env = dict(os.environ)
    env.update(
        VERIF_SEED=str(seed), VERIF_TIER=tier, XOSCAR_DIR=scratch, PYTHONPATH=VERIF, VF_SCRATCH=scratch,
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 4294967295), LANG="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        MALLOC_ARENA_MAX="2", TMPDIR=scratch,
    )
    for k in ("RANK_ADDRESS", "USE_FURY", "DEBUG_OSCAR"):
        env.pop(k, None)
    log = os.path.join(scratch, "log.txt")
    rc = None
    try:
        with open(log, "wb") as lf:
            p = subprocess.Popen(
                [PY, "-m", "vf.harness", pid, out, scratch], cwd=scratch, env=env,
                stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True,
            )
            deadline = time.time() + HARD_LIMIT[tier]
            while True:
                try:
                    rc = p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > deadline:
                        p.kill()
                        rc = p.wait()
                        rc = "timeout"
                        break
        reap_all()
        return finish(pid, tier, seed, rc, out, log, t0)
    finally:
        reap_all()
        shutil.rmtree(scratch, ignore_errors=True)


def finish(pid, tier, seed, rc, out, log, t0):
    try:
        with open(log, errors="replace") as f:
            logtxt = f.read()
    except OSError:
        logtxt = ""
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    if os.environ.get("VF_VERBOSE"):
        print(logtxt[-20000:])
    if res is None:
        if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            res = dict(property=pid, tier=tier, seed=seed, level="exploration",
                       coverage=dict(evaluations=0, distinct_nontrivial=0, rule="crashed", samples=[]),
                       wall_s=time.time() - t0, assumptions=[], known=[], status="violation",
                       violations=[dict(what=f"the interpreter running the workload died of signal {-rc}", phase="?", detail=dict(log=logtxt[-3000:]))])
        elif os.path.exists(out + ".stuck") and os.path.getsize(out + ".stuck"):
            with open(out + ".stuck", errors="replace") as f:
                stacks = f.read()
            res = dict(property=pid, tier=tier, seed=seed, level="exploration",
                       coverage=dict(evaluations=0, distinct_nontrivial=0, rule="stuck", samples=[]),
                       wall_s=time.time() - t0, assumptions=[], known=[], status="violation",
                       violations=[dict(what="nothing ran for 150s in the process of the workload: an operation never ends and lets nothing else run", phase="?", detail=dict(stacks=stacks[-3000:]))])
        else:
            print(logtxt[-4000:])
            print(f"{pid}: no answer (rc={rc})")
            return 2
    evid = {k: res[k] for k in ("property", "tier", "seed", "level", "coverage", "assumptions")}
    evid["wall_s"] = round(time.time() - t0, 3)
    evid["violations"] = len(res["violations"])
    for k in res.get("known", []):
        print(f"KNOWN-FINDING: property={pid} {k}")
    code = 0
    if res["status"] == "violation":
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{pid}-seed{seed}-{tier}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, violations=res["violations"],
                           replay_cmd=f"VERIF_SEED={seed} VERIF_TIER={tier} python3 /verif/check.py {pid}",
                           log_tail=logtxt[-6000:]), f, indent=1)
        for v in res["violations"][:5]:
            print(f"  {v['what']}  [phase {v['phase']}] {json.dumps(v['detail'])[:1500]}")
        print(f"VIOLATION property={pid} replay={rp}")
        code = 1
    elif res["status"] == "error":
        print(logtxt[-4000:])
        print(f"{pid}: harness error, no answer")
        code = 2
    tmp = os.path.join(EVID, f"{pid}.json.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(evid, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    c = evid["coverage"]
    print(f"{pid} {tier} seed={seed}: {res['status']} evaluations={c.get('evaluations')} distinct={c.get('distinct_nontrivial')} observed={json.dumps(c.get('observed', {}))[:600]} wall={evid['wall_s']}s")
    return code


if __name__ == "__main__":
    sys.exit(main())
