"""The C++ rendezvous store: building it with sanitizers, driving it, and judging histories of its operations."""
import asyncio
import glob
import os
import subprocess
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/cpp/collective/rendezvous"
SHIM = os.path.join(VERIF, "cpp", "shim")
DRIVER = os.path.join(VERIF, "cpp", "store_driver.cpp")
SAN = {"thread": ["-fsanitize=thread"], "address": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]}


def fmt_dirs():
    # the newest libfmt there is (the repository's own is a submodule which is not there)
    return [d for d in (os.path.join(sysconfig.get_paths()["purelib"], "torch", "include"), "/usr/include") if os.path.exists(os.path.join(d, "fmt", "format.h"))]


def build(out, variant):
    """Starts the compilers; returns what to wait for."""
    procs, objs = [], []
    inc = []
    for d in fmt_dirs()[:1]:
        if d != "/usr/include":
            # only fmt of it
            link = os.path.join(out, "fmtinc")
            os.makedirs(link, exist_ok=True)
            if not os.path.exists(os.path.join(link, "fmt")):
                os.symlink(os.path.join(d, "fmt"), os.path.join(link, "fmt"))
            inc = ["-isystem", link]
    flags = ["-std=c++20", "-g", "-O1", "-fno-omit-frame-pointer", "-DFMT_HEADER_ONLY", "-w", *SAN[variant], "-I", SHIM, *inc, "-I", os.path.join(SRC, "include")]
    for s in sorted(glob.glob(os.path.join(SRC, "src", "*.cpp"))) + [DRIVER]:
        o = os.path.join(out, f"{variant}-{os.path.basename(s)}.o")
        objs.append(o)
        procs.append(subprocess.Popen(["clang++", *flags, "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    return procs, objs


def link(out, variant, objs):
    exe = os.path.join(out, f"driver-{variant}")
    subprocess.run(["clang++", *SAN[variant], *objs, "-o", exe, "-lpthread"], check=True)
    return exe


class Reply:
    __slots__ = ("t0", "t1", "status", "value", "op", "who")

    def __init__(self, op, who):
        self.op, self.who = op, who
        self.t0 = self.t1 = self.status = self.value = None


class Driver:
    """One process that runs operations."""

    n = 0

    def __init__(self, proc, logs, name):
        self.proc, self.logs, self.name = proc, logs, name
        self.waiting = {}
        self.begun = {}
        self.events = {}  # tag -> [(time, old, new)]
        self.all = []
        self.reader = asyncio.ensure_future(self._read())
        self.killed = False

    @classmethod
    async def start(cls, exe, scratch, leaks, nice=""):
        cls.n += 1
        logs = os.path.join(scratch, f"san{cls.n}")
        env = dict(os.environ, TSAN_OPTIONS=f"halt_on_error=1:exitcode=66:log_path={logs}",
                   ASAN_OPTIONS=f"exitcode=67:detect_leaks={int(leaks)}:allocator_may_return_null=1:max_allocation_size_mb=1024:log_path={logs}",
                   LSAN_OPTIONS="exitcode=68", UBSAN_OPTIONS=f"halt_on_error=1:print_stacktrace=1:log_path={logs}")
        p = await asyncio.create_subprocess_exec(exe, stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE, stderr=open(logs + ".err", "wb"), env=env, limit=1 << 26)
        return cls(p, logs, f"d{cls.n}")

    async def _read(self):
        while True:
            line = await self.proc.stdout.readline()
            if not line:
                break
            w = line.decode().split()
            if not w:
                continue
            if w[0] == "b":
                b = self.begun.get(w[1])
                if b is not None and not b.done():
                    b.set_result(int(w[2]))
            elif w[0] == "r":
                rep, fut = self.waiting.pop(w[1])
                rep.t0, rep.t1, rep.status = int(w[2]), int(w[3]), w[4]
                rep.value = w[5:]
                if not fut.done():
                    fut.set_result(rep)
            elif w[0] == "w":
                self.events.setdefault(w[1], []).append((int(w[3]), w[4], w[5]))
            elif w[0] == "end":
                self.ended = True
        for rep, fut in self.waiting.values():
            if not fut.done():
                rep.status = "gone"
                fut.set_result(rep)

    def put(self, thread, *words):
        """Queues an operation; returns its reply as a future, and one for its start."""
        Driver.n += 1
        i = str(Driver.n)
        loop = asyncio.get_running_loop()
        rep, fut = Reply(words, (self.name, thread)), loop.create_future()
        self.waiting[i] = rep, fut
        self.begun[i] = loop.create_future()
        self.all.append(rep)
        self.proc.stdin.write(("t " + " ".join([thread, i, *map(str, words)]) + "\n").encode())
        return fut, self.begun[i]

    async def do(self, thread, *words):
        fut, _ = self.put(thread, *words)
        return await fut

    def hold(self):
        self.proc.stdin.write(b"hold\n")

    def go(self):
        self.proc.stdin.write(b"go\n")

    def kill(self):
        self.killed = True
        self.proc.kill()

    async def end(self):
        """Closes everything; returns the exit status."""
        if not self.killed and self.proc.returncode is None:
            try:
                self.proc.stdin.close()
            except Exception:
                pass
        rc = await self.proc.wait()
        await self.reader
        return rc

    def reports(self):
        out = ""
        for f in sorted(glob.glob(self.logs + "*")):
            with open(f, errors="replace") as h:
                out += h.read()
        return out


# --- the model -----------------------------------------------------------------
SILENT = {"set", "gset", "append", "mset"}  # nothing comes back for these: they happen some time after


def hx(b):
    return "x" + bytes(b).hex()


def apply(state, op, res):
    """The next state of the store (a dict), or None if `op` could not give `res` (None: not known) here."""
    k = op[0]
    if k in ("set", "gset"):
        return {**state, op[2]: op[3]}
    if k == "append":
        return {**state, op[2]: state.get(op[2], "x") + op[3][1:]}
    if k == "mset":
        s = dict(state)
        s.update(zip(op[2::2], op[3::2]))
        return s
    if k == "add":
        v = int(op[3])
        if op[2] in state:
            v += int(bytes.fromhex(state[op[2]][1:]))
        if res is not None and res != [str(v)]:
            return None
        return {**state, op[2]: hx(str(v).encode())}
    if k == "cas":
        have = state.get(op[2])
        if have is None:
            new, out = ((op[4], op[4]) if op[3] == "x" else (None, op[3]))
        else:
            new, out = ((op[4], op[4]) if have == op[3] else (None, have))
        if res is not None and res != [out]:
            return None
        return state if new is None else {**state, op[2]: new}
    if k == "del":
        if res is not None and res != ["1" if op[2] in state else "0"]:
            return None
        return {a: b for a, b in state.items() if a != op[2]}
    if k in ("get", "gget"):
        return state if op[2] in state and (res is None or res == [state[op[2]]]) else None
    if k == "mget":
        if not all(x in state for x in op[2:]):
            return None
        return state if res is None or res == [state[x] for x in op[2:]] else None
    if k == "check":
        return state if res is None or res == ["1" if all(x in state for x in op[2:]) else "0"] else None
    if k == "num":
        return state if res is None or res == [str(len(state))] else None
    if k == "wait":
        return state if all(x in state for x in op[3:]) else None
    raise AssertionError(op)


def linearize(threads, conns, init, final=None):
    """Is there one order of all operations that explains every answer?

    `threads`: lists of replies in the order they were issued; `conns[i]`: which connection thread i used.
    Operations without an answer happen after they were issued and before the next answered one issued later through the
    same connection was answered.
    """
    INF = float("inf")
    flat = []
    for t, ops in enumerate(threads):
        for i, r in enumerate(ops):
            flat.append((t, i, r))
    ext = {}
    for t, i, r in flat:
        if r.status != "ok":
            ext[t, i] = INF
        elif r.op[0] in SILENT:
            ext[t, i] = min([q.t1 for u, j, q in flat if conns[u] == conns[t] and q.status == "ok" and q.op[0] not in SILENT and q.t0 >= r.t1], default=INF)
        else:
            ext[t, i] = r.t1
    before = {}
    for t, i, r in flat:
        b = []
        for u, j, q in flat:
            if u != t and r.t0 is not None:
                e = q.t1 if conns[u] == conns[t] and q.status == "ok" else ext[u, j]
                if e < r.t0:
                    b.append((u, j))
        m = {}
        for u, j in b:
            m[u] = max(m.get(u, -1), j)
        before[t, i] = m
    seen = set()
    stack = [((0,) * len(threads), dict(init), ())]
    steps = 0
    while stack:
        pos, state, order = stack.pop()
        if all(p == len(o) or all(r.status != "ok" for r in o[p:]) for p, o in zip(pos, threads)) and (final is None or state == final):
            return True, steps
        key = (pos, frozenset(state.items()))
        if key in seen:
            continue
        seen.add(key)
        steps += 1
        if steps > 300000:
            return None, steps
        for t, ops in enumerate(threads):
            if pos[t] == len(ops):
                continue
            r = ops[pos[t]]
            if any(pos[u] <= j for u, j in before[t, pos[t]].items()):
                continue
            nxt = apply(state, r.op, r.value if r.status == "ok" and r.op[0] not in SILENT else None)
            if nxt is not None:
                stack.append((pos[:t] + (pos[t] + 1,) + pos[t + 1:], nxt, order))
    return False, steps
