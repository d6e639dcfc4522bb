"""Collectives: xoscar's own binding (built with a sanitizer against a stand-in for gloo), ranks, and what they must get."""
import glob
import importlib.util
import os
import subprocess
import sys
import sysconfig

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/cpp/collective"
STANDIN = os.path.join(VERIF, "cpp", "gloo")
SHIM = os.path.join(VERIF, "cpp", "shim")
SAN = ["-fsanitize=address,undefined", "-shared-libasan", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"]
HEADERS = "chrono complex functional numpy pybind11 stl stl_bind"


def install():
    """In a process of a rank, before xoscar.collective is imported."""
    so = os.environ.get("VF_PYGLOO")
    if so and "xoscar.collective.xoscar_pygloo" not in sys.modules:
        spec = importlib.util.spec_from_file_location("xoscar_pygloo", so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules["xoscar.collective.xoscar_pygloo"] = mod


install()


def preload():
    return subprocess.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True, text=True, check=True).stdout.strip()


def build(out):
    torch = os.path.join(sysconfig.get_paths()["purelib"], "torch", "include")
    inc = os.path.join(out, "inc")
    os.makedirs(inc, exist_ok=True)
    for d in ("fmt", "pybind11"):
        os.symlink(os.path.join(torch, d), os.path.join(inc, d))
    flags = ["-std=c++20", "-O0", "-g1", "-fPIC", "-fvisibility=hidden", "-DFMT_HEADER_ONLY", "-w", "-I", STANDIN, "-I", SHIM, "-isystem", inc, "-isystem", sysconfig.get_paths()["include"],
             "-I", os.path.join(SRC, "gloo", "include"), "-I", os.path.join(SRC, "rendezvous", "include"), *SAN]
    pre = os.path.join(out, "pre.h")
    with open(pre, "w") as f:
        f.write("#include <gloo/standin.h>\n" + "".join(f"#include <pybind11/{h}.h>\n" for h in HEADERS.split()))

    def start(src, *more):
        o = os.path.join(out, os.path.basename(src) + ".o")
        return o, subprocess.Popen(["clang++", *flags, *more, "-c", src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    jobs = [start(s) for s in [os.path.join(STANDIN, "standin.cc"), *sorted(glob.glob(os.path.join(SRC, "rendezvous", "src", "*.cpp")))]]
    subprocess.run(["clang++", *flags, "-x", "c++-header", pre, "-o", pre + ".gch"], check=True)
    jobs += [start(s, "-include-pch", pre + ".gch") for s in [os.path.join(SRC, "gloo", "main.cc"), *sorted(glob.glob(os.path.join(SRC, "gloo", "src", "*.cc")))]]
    for o, p in jobs:
        log = p.communicate()[0]
        if p.returncode:
            raise RuntimeError(f"{o}: {log.decode(errors='replace')[-3000:]}")
    so = os.path.join(out, "xoscar_pygloo.so")
    subprocess.run(["clang++", "-shared", *SAN, *[o for o, _ in jobs], "-o", so, "-lpthread"], check=True)
    return so


# -- what is sent, and what must come ---------------------------------------
DTYPES = ["int8", "uint8", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64"]
REDUCE = {"SUM": np.add, "PRODUCT": np.multiply, "MIN": np.minimum, "MAX": np.maximum}
OPS = ["reduce", "allreduce", "gather", "allgather", "scatter", "reduce_scatter", "alltoall", "broadcast"]


def sizes(step):
    """Elements sent and received by one rank."""
    n, w = step["n"], len(step["ranks"])
    op = step["op"]
    if op in ("gather", "allgather"):
        return n, n * w
    if op == "alltoall":
        return n * w, n * w
    if op == "reduce_scatter":
        return sum(step["elems"]), None
    return n, n


def values(step, g, i=0):
    """What the g-th of the group sends (the i-th of its arrays)."""
    rng = np.random.default_rng([step["seed"], g, i])
    n = sizes(step)[0]
    if "reduce" not in step["op"] or step["redop"] in ("MIN", "MAX"):
        # (any values; sums of some would not be defined)
        if step["dtype"].startswith("f"):
            return rng.normal(size=n).astype(step["dtype"])
        i = np.iinfo(step["dtype"])
        return rng.integers(i.min, i.max, size=n, dtype=step["dtype"], endpoint=True)
    lo = 0 if step["dtype"].startswith("u") else -3
    return rng.integers(lo, 4, size=n).astype(step["dtype"])


def expected(step, g):
    """What the g-th of the group must have received; None: nothing is said."""
    op, w, root = step["op"], len(step["ranks"]), step["root"]
    if op == "scatter":
        return values(step, root, g)
    v = [values(step, i) for i in range(w)]
    if op in ("reduce", "allreduce", "reduce_scatter"):
        r = v[0]
        for x in v[1:]:
            r = REDUCE[step["redop"]](r, x, dtype=r.dtype)
        if op == "reduce" and g != root:
            return None
        if op == "reduce_scatter":
            at = sum(step["elems"][:g])
            return r[at : at + step["elems"][g]]
        return r
    if op == "gather" and g != root:
        return None
    if op in ("gather", "allgather"):
        return np.concatenate(v)
    if op == "alltoall":
        n = step["n"]
        return np.concatenate([x[n * g : n * (g + 1)] for x in v])
    return v[root]


class Buffer:
    """An array of just the memory it needs, or with neighbours that must stay as they are."""

    def __init__(self, v, layout):
        self.layout = layout
        self.all = None
        if layout == "view":
            self.all = np.full(len(v) + 14, 77, v.dtype)
            self.a = self.all[7 : 7 + len(v)]
            self.a[:] = v
        elif layout == "strided":
            self.all = np.full(2 * len(v), 77, v.dtype)
            self.a = self.all[::2]
            self.a[:] = v
        elif layout == "rows":
            self.a = np.array(v).reshape(1, -1, 1)
        elif layout == "bytes":
            self.a = bytearray(v.tobytes())
        else:
            self.a = np.array(v)

    def get(self):
        return bytes(self.a) if self.layout == "bytes" else self.a.tobytes()

    def neighbours(self):
        if self.layout == "view":
            return bool((self.all[:7] == 77).all() and (self.all[-7:] == 77).all())
        if self.layout == "strided":
            return bool((self.all[1::2] == 77).all())
        return True


# -- the ranks --------------------------------------------------------------
import xoscar as xo


class Rank(xo.StatelessActor):
    async def __pre_destroy__(self):
        pass

    async def setup(self, rank, world, explicit, env):
        from xoscar.collective import common, init_process_group

        os.environ.update(env)
        if not explicit:
            os.environ[common.RANK_ADDRESS_ENV_KEY] = self.address
        try:
            await init_process_group(rank, world, **(dict(address=self.address) if explicit else {}))
        except Exception as e:
            return type(e).__name__

    async def outside(self, op):
        """(before this process has a rank)"""
        import xoscar.collective as c

        try:
            if op == "new_group":
                await c.new_group([0])
            else:
                await getattr(c, op)(np.zeros(1), np.zeros(1), **({"recv_elems": [1]} if op == "reduce_scatter" else {}))
        except Exception as e:
            return type(e).__name__
        return "nothing"

    async def params(self, group):
        ref = await xo.actor_ref("RankActor", address=self.address)
        pg = await ref.process_group(group)
        return await ref.rank(), await ref.world(), await ref.backend(), pg.rank, pg.world_size, pg.name

    async def illegal(self, ranks):
        import xoscar.collective as c

        try:
            await c.new_group(ranks)
        except Exception as e:
            return type(e).__name__
        return "nothing"

    async def group(self, ranks):
        import xoscar.collective as c

        return await c.new_group(ranks)

    async def step(self, step, me, group):
        """`me`: which of the group"""
        import xoscar.collective as c

        op = step["op"]
        lay, rlay = step["layouts"][me]
        n = sizes(step)[1]
        if n is None:
            n = step["elems"][me]
        fill = np.full(n, 55).astype(step["dtype"])
        recv = Buffer(fill, rlay)
        if op == "scatter":
            sends = [Buffer(values(step, me, i), lay) for i in range(len(step["ranks"]))] if me == step["root"] or not step["nosend"] else []
            send = [s.a for s in sends]
        elif op == "broadcast" and me != step["root"] and step["nosend"]:
            sends, send = [], None
        else:
            sends = [Buffer(values(step, me), lay)]
            send = sends[0].a
        before = [s.get() for s in sends]
        kw = {}
        if group is not None:
            kw["group_name"] = group
        if op not in ("allreduce", "allgather", "alltoall", "reduce_scatter") and not (step["root"] == 0 and step["bare"]):
            kw["root"] = step["root"]
        if op != "reduce_scatter" and step["tag"]:
            kw["tag"] = step["tag"]
        if op in ("reduce", "allreduce", "reduce_scatter") and not (step["redop"] == "SUM" and step["bare"]):
            kw["op"] = c.common.CollectiveReduceOp[step["redop"]]
        args = (send, recv.a) + ((step["elems"],) if op == "reduce_scatter" else ())
        out = dict(error=None)
        try:
            await getattr(c, op)(*args, **kw)
        except Exception as e:
            out["error"] = repr(e)[:300]
        got = recv.get()
        out.update(got=got, touched=got != fill.tobytes(), sent=before == [s.get() for s in sends], near=recv.neighbours() and all(s.neighbours() for s in sends))
        return out
