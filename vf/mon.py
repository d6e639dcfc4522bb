"""In-process event recorder used by the workload actors.

Each process appends JSON lines to its own file in VF_SCRATCH/mon; the offline
checkers merge them by CLOCK_MONOTONIC, which is one clock for all processes of
the machine.  A record is written with one os.write, so what a process saw is
there even if it is killed right afterwards.
"""
import glob
import json
import os
import time

_fd = None
_pid = None


def _open():
    global _fd, _pid
    d = os.path.join(os.environ["VF_SCRATCH"], "mon")
    os.makedirs(d, exist_ok=True)
    _pid = os.getpid()
    _fd = os.open(os.path.join(d, f"{_pid}.jsonl"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)


def emit(kind, **kw):
    if _fd is None or _pid != os.getpid():
        _open()
    kw["k"] = kind
    kw["t"] = time.monotonic_ns()
    kw["p"] = _pid
    os.write(_fd, (json.dumps(kw) + "\n").encode())


def read():
    evs = []
    for f in glob.glob(os.path.join(os.environ["VF_SCRATCH"], "mon", "*.jsonl")):
        with open(f) as fh:
            for i, line in enumerate(fh):
                if line.endswith("\n"):
                    e = json.loads(line)
                    e["i"] = i
                    evs.append(e)
    evs.sort(key=lambda e: (e["t"], e["p"], e["i"]))
    return evs


def clear():
    global _fd
    for f in glob.glob(os.path.join(os.environ["VF_SCRATCH"], "mon", "*.jsonl")):
        with open(f, "r+") as fh:
            fh.truncate(0)
