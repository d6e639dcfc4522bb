"""C35: managers of virtual environments, driven in a process of an unprivileged user (they delete trees).

python -m vf.venvops '{"dir": scratch, "seed": n, "mode": "real" | "stand-in", "seconds": s, "least": cases}' prints one JSON object per line.
"""
import base64
import contextlib
import hashlib
import io
import itertools
import json
import logging
import os
import random
import shutil
import subprocess
import sys
import threading
import time
import types
import zipfile
from pathlib import Path

from packaging.requirements import Requirement
from packaging.utils import canonicalize_name
from packaging.version import Version

SPEC = json.loads(sys.argv[1])
DIR = Path(SPEC["dir"]).resolve()
OUT = os.dup(1)


def say(**kw):
    os.write(OUT, (json.dumps(kw, default=str) + "\n").encode())


class Wrong(Exception):
    pass


def check(cond, what, **detail):
    if not cond:
        say(violation=what, detail={k: str(v)[:600] for k, v in detail.items()})
        raise Wrong(what)


# what the code under test deletes has to be in the scratch directory
real_rmtree = shutil.rmtree


def rmtree(path, *a, **kw):
    p = Path(path).resolve()
    check(p != DIR and DIR in p.parents and "envs" in p.relative_to(DIR).parts[:1] and len(p.relative_to(DIR).parts) >= 2, "a directory that is no environment is deleted", path=p)
    return real_rmtree(path, *a, **kw)


shutil.rmtree = rmtree

# -- an index of tiny packages ----------------------------------------------
# name -> version -> requirements
INDEX = {
    "vfa": {"1.0": [], "1.1": [], "1.10": [], "2.0": []},
    "vfb": {"1.0": ["vfa>=1.1"], "2.0": ["vfa>=2"]},
    "vfc": {"1.0": ["vfd; extra == 'x'", "vfe>=1; extra == 'y'"], "1.5": ["vfd>=1; extra == 'x'", "vfe>=1; extra == 'y'"]},
    "vfd": {"1.0": [], "1.2.3": []},
    "vfe": {"1.0": []},
    "VF_Odd.name": {"1.0": [], "2.0": []},
    "vfl": {"1.5": [], "1.6": []},
}
PROJECTS = {canonicalize_name(n): n for n in INDEX}
# what is there without an environment
SYSTEM = {"vfa": "1.1", "VF_Odd.name": "1.0", "vfl": "1.5+cpu"}


def wheel(name, version, requires):
    dist = name.replace("-", "_").replace(".", "_")
    info = f"{dist}-{version}.dist-info"
    meta = f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n" + "".join(f"Requires-Dist: {r}\n" for r in requires)
    if requires and any("extra" in r for r in requires):
        meta += "Provides-Extra: x\nProvides-Extra: y\n"
    files = {f"{dist.lower()}.py": f"version = {version!r}\n", f"{info}/METADATA": meta, f"{info}/WHEEL": "Wheel-Version: 1.0\nGenerator: vf\nRoot-Is-Purelib: true\nTag: py3-none-any\n"}
    rec = ""
    for n, d in files.items():
        rec += f"{n},sha256={base64.urlsafe_b64encode(hashlib.sha256(d.encode()).digest()).rstrip(b'=').decode()},{len(d)}\n"
    files[f"{info}/RECORD"] = rec + f"{info}/RECORD,,\n"
    p = DIR / "wheels" / f"{dist}-{version}-py3-none-any.whl"
    with zipfile.ZipFile(p, "w") as z:
        for n, d in files.items():
            z.writestr(n, d)
    return p


# -- the machine ------------------------------------------------------------
class Machine:
    """What torch says is there."""

    def __init__(self, rng):
        self.has_cuda = rng.random() < 0.5
        self.cuda_version = rng.choice(["12.1", "11.8", "12.10", "13.0"]) if self.has_cuda else None
        self.cuda_arch = rng.choice([(8, 0), (9, 0), (12, 0), (7, 5)]) if self.has_cuda else None
        self.has_npu = rng.random() < 0.3
        torch = types.ModuleType("torch")
        torch.version = types.SimpleNamespace(cuda=self.cuda_version)

        def capability(*a):
            if not self.has_cuda:
                raise AssertionError("Torch not compiled with CUDA enabled")
            return self.cuda_arch

        torch.cuda = types.SimpleNamespace(is_available=lambda: self.has_cuda, get_device_capability=capability)
        torch.npu = types.SimpleNamespace(is_available=lambda: self.has_npu)
        sys.modules["torch"] = torch
        sys.modules["torch_npu"] = types.ModuleType("torch_npu") if self.has_npu else None


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


class Markers:
    """Random conditions with the value each has."""

    def __init__(self, rng, machine, variables):
        self.rng, self.m, self.v = rng, machine, variables

    def q(self, s):
        return self.rng.choice(["'%s'", '"%s"']) % s

    def standard(self):
        rng = self.rng
        k = rng.randint(0, 3)
        if k == 0:
            op, v = rng.choice(list(OPS)), rng.choice(["3.8", "3.9", "3.10", "3.12", "3.13", "3.100"])
            return f"python_version {op} {self.q(v)}", OPS[op](Version("%d.%d" % sys.version_info[:2]), Version(v))
        if k == 1:
            op, v = rng.choice(["==", "!="]), rng.choice(["linux", "win32", "darwin"])
            return f"sys_platform {op} {self.q(v)}", OPS[op](sys.platform, v)
        if k == 2:
            op, v = rng.choice(["==", "!="]), rng.choice(["Linux", "Windows"])
            return f"{self.q(v)} {op} platform_system", OPS[op](v, "Linux")
        op, v = rng.choice(["==", "!="]), rng.choice(["posix", "nt"])
        return f"os_name {op} {self.q(v)}", OPS[op](os.name, v)

    def custom(self):
        rng, m = self.rng, self.m
        k = rng.randint(0, 7)
        if k == 0:
            return "has_cuda", m.has_cuda
        if k == 1:
            return "has_npu", m.has_npu
        if k == 2:
            w = rng.random() < 0.5
            return f"has_cuda == {w}", m.has_cuda == w
        if k == 3:
            op, v = rng.choice(list(OPS)), rng.choice(["11.8", "12.1", "12.2", "12.10", "13.0", "12", "13"])
            if m.cuda_version is None:
                # no version is not of any order
                val = op == "!="
            else:
                val = OPS[op](Version(m.cuda_version), Version(v))
            return f"cuda_version {op} {self.q(v)}", val
        if k == 4:
            op, v = rng.choice(list(OPS)), rng.choice([75, 80, 90, 120])
            val = op == "!=" if m.cuda_arch is None else OPS[op](int("%d%d" % m.cuda_arch), v)
            return f"cuda_arch {op} {self.q('sm_%d' % v)}", val
        name = rng.choice(sorted(self.v))
        v = self.v[name]
        if isinstance(v, bool):
            w = rng.random() < 0.5
            return f"#{name}# == {w}", v == w
        if isinstance(v, (int, float)):
            op, w = rng.choice(list(OPS)), rng.randint(0, 10)
            return f"#{name}# {op} {w}", OPS[op](v, w)
        if v is None:
            op = rng.choice(["==", "!="])
            return f"#{name}# {op} None", op == "=="
        op = rng.choice(["==", "!="])
        w = rng.choice([v, "vllm", "sglang"]) if "'" not in v and '"' not in v and "\\" not in v else rng.choice(["vllm", "sglang"])
        return f"#{name}# {op} {self.q(w)}", OPS[op](v, w)

    def make(self, depth=0, custom=True):
        rng = self.rng
        k = rng.randint(0, 9 if depth < 3 else 4)
        if k <= 4:
            t, v = self.custom() if custom and rng.random() < 0.7 else self.standard()
            return t, v, 3
        if k <= 6 and custom:
            t, v, p = self.make(depth + 1, custom)
            # (a comparison binds closer than not)
            return f"not {t}" if p >= 3 and rng.random() < 0.6 else f"not ({t})", not v, 2.5
        op = rng.choice(["and", "or"])
        level = 2 if op == "and" else 1
        parts = [self.make(depth + 1, custom) for _ in range(rng.choice([2, 2, 3]))]
        texts = [t if p > level or (p == level and i == 0) else f"({t})" for i, (t, v, p) in enumerate(parts)]
        val = all(v for _, v, _ in parts) if op == "and" else any(v for _, v, _ in parts)
        return f" {op} ".join(texts), val, level


# -- requirements -----------------------------------------------------------
def requirement(rng, plain=False):
    """A requirement without marker that this index may satisfy."""
    name = rng.choice(list(INDEX))
    versions = list(INDEX[name])
    v = rng.choice(versions + ["9.9"] if rng.random() < 0.12 else versions)
    spec = rng.choice(["", "", f"=={v}", f">={v}", f"<={v}", f">={versions[0]},<=9", f"~={v}", f"!={v}"] + ([f"!={versions[0]}"] if len(versions) > 1 else []))
    extra = ""
    if name == "vfc":
        extra = rng.choice(["", "[x]", "[y]", "[x,y]", "[y, x]"])
    if not plain and rng.random() < 0.15 and v in INDEX[name]:
        dist = name.replace(".", "_")
        return f"{name}{extra} @ file://{DIR}/wheels/{dist}-{v}-py3-none-any.whl"
    shown = name
    if name == "VF_Odd.name":
        shown = rng.choice(["VF_Odd.name", "vf-odd-name", "vf_odd.name", "Vf.Odd_Name"])
    return f"{shown}{extra}{spec}"


def allowed(reqs):
    """Assignments of versions to projects that satisfy requirements, with nothing superfluous."""
    names = [canonicalize_name(n) for n in INDEX]
    res = []
    for combo in itertools.product(*[[None, *INDEX[PROJECTS[n]]] for n in names]):
        a = dict(zip(names, combo))
        need, todo, ok = {}, [(r, None) for r in reqs], True
        while todo and ok:
            r, ex = todo.pop()
            n = canonicalize_name(r.name)
            if a.get(n) is None or not r.specifier.contains(a[n], prereleases=True) or (r.url and f"-{a[n]}-" not in r.url):
                ok = False
                break
            want = {None, *r.extras}
            for e in want - need.setdefault(n, set()):
                need[n].add(e)
                for d in INDEX[PROJECTS[n]][a[n]]:
                    d = Requirement(d)
                    if d.marker is None and e is None:
                        todo.append((d, None))
                    elif d.marker is not None and e is not None and d.marker.evaluate({"extra": e}):
                        todo.append((d, None))
        if ok and all((a[n] is None) == (n not in need) for n in names):
            res.append({n: v for n, v in a.items() if v})
    return res


def contents(lib):
    res = {}
    for d in Path(lib).glob("*.dist-info"):
        meta = (d / "METADATA").read_text()
        f = dict(x.split(": ", 1) for x in meta.splitlines() if ": " in x)
        res[canonicalize_name(f["Name"])] = (f["Version"], (d / "direct_url.json").exists())
    return res


def tree(p):
    return sorted((str(x.relative_to(p)), x.read_bytes() if x.is_file() and x.stat().st_size < 10000 else None) for x in Path(p).rglob("*") if not x.is_symlink())


def real(rng):
    import xoscar.virtualenv as xv

    class System:
        """Puts the packages of SYSTEM on the path of this process."""

    site = DIR / "system"
    site.mkdir()
    for n, v in SYSTEM.items():
        d = site / f"{n.replace('.', '_')}-{v}.dist-info"
        d.mkdir()
        (d / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {n}\nVersion: {v}\n")
    sys.path.append(str(site))
    installed = {canonicalize_name(n): v for n, v in SYSTEM.items()}
    (DIR / "envs").mkdir()
    other = DIR / "envs" / "other"
    other.mkdir()
    (other / "kept.txt").write_text("kept")
    (DIR / "elsewhere").mkdir()
    n = 0
    end = time.monotonic() + SPEC["seconds"]
    path, man, model = None, None, None  # model: None (no environment) or a set of extra files
    while n < SPEC["least"] or time.monotonic() < end:
        n += 1
        if man is None or rng.random() < 0.1:
            path = DIR / "envs" / rng.choice(["e1", "e2", "sub dir/e3"])
            shown = path
            if rng.random() < 0.3:
                shown = rng.choice([str(path), path.parent / "." / path.name, DIR / "envs" / ".." / path.relative_to(DIR)])
            man = xv.get_virtual_env_manager("uv", shown)
            model = (path / "pyvenv.cfg").exists()
        before = tree(other)
        # create
        how = rng.choice(["ignore", "ignore", "clear", "clear", "clear", "error", "remove", None])
        mark = path / "mark.txt"
        check(man.exists_env() == model, "exists_env is wrong", path=path, want=model)
        check((man.get_python_path() is None) == (not model), "get_python_path is wrong", got=man.get_python_path(), there=model)
        if model:
            mark.write_text("here")
            Path(man.get_lib_path(), "vfz.txt").write_text("here")
        was = tree(path) if model else None
        if how == "remove":
            man.remove_env()
            check(not path.exists(), "a removed environment is there", path=path)
            man.remove_env()
            model = False
            how = rng.choice(["ignore", "error", "clear"])
        args = {} if how is None else dict(exists=how)
        if rng.random() < 0.8:
            args["python_path"] = Path(sys.executable)
        try:
            man.create_env(**args)
        except FileExistsError:
            check(how == "error" and model, "an environment could not be created", how=how, there=model)
            check(tree(path) == was, "an environment that must not be touched was changed", how=how)
        else:
            check(not (how == "error" and model), "an environment that exists was created again", how=how)
            if model and how in ("ignore", None):
                check(tree(path) == was, "an environment that must not be touched was changed", how=how)
            else:
                check(not mark.exists() and not Path(man.get_lib_path(), "vfz.txt").exists(), "a cleared environment has something of the former one", how=how)
        model = True
        check(man.exists_env() and Path(man.get_python_path()).exists(), "an environment that was created is not there")
        say(count="environments_" + str(how))
        if was is not None and how not in ("clear",) and mark.exists():
            # fill only fresh ones
            if rng.random() < 0.7:
                man.create_env(exists="clear", python_path=Path(sys.executable))
            else:
                continue
        # fill
        for _ in range(rng.choice([1, 1, 2])):
            fill(rng, man, installed)
            man.create_env(exists="clear", python_path=Path(sys.executable))
        check(tree(other) == before, "a directory beside the environment was changed")


def fill(rng, man, installed):
    machine = Machine(rng)
    variables = dict(engine=rng.choice(["vllm", "sglang", "a b", 'q"t', "it's", "ü"]), count=rng.randint(0, 10), ratio=rng.choice([0.5, 3.5]), flag=rng.random() < 0.5, none=None)
    mk = Markers(rng, machine, variables)
    skip = rng.random() < 0.35
    specs, wanted = [], []
    for _ in range(rng.randint(1, 5)):
        r = requirement(rng, plain=skip)
        if skip and "[" in r:
            r = r[: r.index("[")] + r[r.index("]") + 1 :]
        k = rng.randint(0, 9)
        if k == 0 and not skip:
            specs.append("#system_vfa#")
            wanted.append("vfa==1.1")
        elif k == 1:
            specs.append("#system_vfl#")
            wanted.append("vfl==1.5")
        elif k <= 3:
            specs.append(r)
            wanted.append(r)
        else:
            text, val, _ = mk.make(custom=rng.random() < 0.75)
            specs.append(f"{r}{' ' if ' @ ' in r else rng.choice(['', ' '])};{rng.choice(['', ' '])}{text}")
            say(count="markers_true" if val else "markers_false")
            if val:
                wanted.append(r)
    reqs = [Requirement(w) for w in wanted]
    detail = dict(specs=specs, wanted=wanted, skip=skip, cuda=(machine.cuda_version, machine.cuda_arch), npu=machine.has_npu, variables=variables)
    env_only = reqs
    if skip:
        # (a local version satisfies what asks for its public one)
        env_only = [r for r in reqs if not (canonicalize_name(r.name) in installed and r.specifier.contains(installed[canonicalize_name(r.name)]))]
    ok = allowed(reqs)
    args = dict(variables)
    args["find_links"] = str(DIR / "wheels") if rng.random() < 0.5 else [str(DIR / "wheels"), str(DIR / "elsewhere")]
    if skip or rng.random() < 0.2:
        args["skip_installed"] = skip
    if rng.random() < 0.2:
        args["log"] = True
    if rng.random() < 0.1:
        args["no_build_isolation"] = True
    say(case=[skip, len(specs), len(wanted), bool(ok)], nontrivial=any(";" in s for s in specs), sample=detail)
    os.environ["UV_FIND_LINKS"] = str(DIR / "wheels")
    try:
        man.install_packages(list(specs), **args)
    except subprocess.CalledProcessError:
        check(not ok or skip and unsatisfiable(env_only, reqs, installed), "packages could not be installed", **detail)
        say(count="refused")
        return
    except Exception as e:
        check(False, "an installation failed otherwise than the installer", error=repr(e), **detail)
    got = contents(man.get_lib_path())
    got = {k: v for k, v in got.items() if k in PROJECTS}
    there = {k: v for k, (v, _) in got.items()}
    if skip:
        want_names = {canonicalize_name(r.name) for r in env_only}
        for r in env_only:
            n = canonicalize_name(r.name)
            check(n in there and r.specifier.contains(there[n]), "what was asked for and is not there is not installed", name=n, got=there, **detail)
        for r in reqs:
            check(r in env_only or canonicalize_name(r.name) not in there, "what is there and is as asked for was replaced", name=r.name, got=there, **detail)
        for n, v in there.items():
            check(n in want_names or n in ("vfa", "vfd", "vfe"), "what was not asked for was installed", name=n, got=there, **detail)
            check(installed.get(n) != v, "what is there already was installed again", name=n, got=there, **detail)
        say(count="installed_what_is_missing")
        return
    check(ok, "an installation that is not possible was reported as done", got=there, **detail)
    check(there in ok, "not what was asked for is in the environment", got=there, possible=ok[:4], **detail)
    for r in reqs:
        check(not r.url or got[canonicalize_name(r.name)][1], "a package was not installed from where it was said to be", name=r.name, **detail)
    say(count="installed")
    if there and rng.random() < 0.15:
        n = rng.choice(sorted(there))
        mod = PROJECTS[n].replace(".", "_").lower()
        out = subprocess.run([man.get_python_path(), "-c", f"import {mod}; print({mod}.version)"], capture_output=True, text=True)
        check(out.stdout.strip() == there[n], "the interpreter of an environment has not its packages", name=n, got=out.stdout, error=out.stderr)
        say(count="imported")


def unsatisfiable(env_only, reqs, installed):
    # what is there already constrains the rest
    pins = [Requirement(f"{r.name}=={Version(installed[canonicalize_name(r.name)]).public}") for r in reqs if r not in env_only]
    return not allowed(env_only + pins) or not allowed(env_only)


# -- an installer that does as told ------------------------------------------
STAND_IN = r"""#!%s
import json, os, sys, time
spec = json.load(open(%r))
for stream, data in spec["output"]:
    os.write(stream, data.encode("latin-1"))
with open(spec["argv"], "a") as f:
    f.write(json.dumps([os.getpid(), sys.argv[1:]]) + "\n")
time.sleep(spec["sleep"])
sys.exit(spec["exit"])
"""


def stand_in(rng):
    uv, conf, argv = DIR / "uv", DIR / "uv.json", DIR / "argv"
    uv.write_text(STAND_IN % (sys.executable, str(conf)))
    uv.chmod(0o755)
    os.environ["XOSCAR_UV_PATH"] = str(uv)
    import xoscar.virtualenv as xv

    logger = logging.getLogger("xoscar.virtualenv.utils")
    logger.setLevel(logging.INFO)
    logger.propagate = False
    records = []
    h = logging.Handler()
    h.emit = lambda r: records.append((r.levelno, r.getMessage()))
    logger.addHandler(h)
    n = 0
    end = time.monotonic() + SPEC["seconds"]
    man = xv.get_virtual_env_manager("uv", DIR / "envs" / "e")
    while n < SPEC["least"] or time.monotonic() < end:
        n += 1
        log = rng.random() < 0.6
        cancel = rng.random() < 0.4
        code = rng.choice([0, 0, 1, 2, 77])
        lines = {1: [], 2: []}
        output = []
        for i in range(rng.choice([0, 3, 40, 400])):
            s = rng.choice([1, 2])
            t = rng.choice(["line %d" % i, "\x1b[1;32mgreen\x1b[0m %d" % i, "", "x" * rng.choice([10, 5000]), "\xc3\xbc %d" % i, "bad \xff %d" % i, "a\x1b[2Kb", "per\rcent 50%%s %d" % i])
            output.append([s, t + "\n"])
            lines[s].append(t)
        if rng.random() < 0.3:
            output.append([1, "no newline"])
            lines[1].append("no newline")
        conf.write_text(json.dumps(dict(argv=str(argv), output=output, sleep=60 if cancel else 0, exit=code)))
        argv.write_text("")
        del records[:]
        options = {}
        want = []
        if rng.random() < 0.5:
            options["index_url"] = "https://example.invalid/simple"
            want.append(["-i", options["index_url"]])
        for k, o in (("extra_index_url", "--extra-index-url"), ("find_links", "-f"), ("trusted_host", "--trusted-host")):
            if rng.random() < 0.4:
                v = rng.choice(["one", ["one"], ["one", "two", "three"], ("a", "b"), []])
                options[k] = v
                want += [[o, x] for x in ([v] if isinstance(v, str) else v)]
        if rng.random() < 0.3:
            options["no_build_isolation"] = rng.random() < 0.7
        pkgs = rng.sample(["one", "two>=2", "git+https://example.invalid/x.git@v1#egg=x", "https://example.invalid/x-1.0-py3-none-any.whl", "three[x]==1.*", "four; python_version >= '3'"], rng.randint(1, 4))
        shown = ["four" if p.startswith("four") else p for p in pkgs]
        res = {}

        def install():
            so, se = sys.stdout, sys.stderr
            try:
                man.install_packages(pkgs, log=log, **options)
                res["end"] = ("ok", None)
            except subprocess.CalledProcessError as e:
                res["end"] = ("failed", e.returncode)
            except BaseException as e:
                res["end"] = ("other", repr(e))

        detail = dict(log=log, cancel=cancel, code=code, packages=pkgs, options=options)
        # (an installer that is not read writes to descriptors, one that is to sys.stdout)
        null, keep = os.open(os.devnull, os.O_WRONLY), (os.dup(1), os.dup(2))
        terminal = io.StringIO()
        so, se = sys.stdout, sys.stderr
        os.dup2(null, 1), os.dup2(null, 2)
        sys.stdout = terminal
        sys.stderr = io.StringIO()
        try:
            t = threading.Thread(target=install, daemon=True)
            t.start()
            if cancel:
                for _ in range(4000):
                    if argv.read_text().endswith("\n"):
                        break
                    time.sleep(0.005)
                time.sleep(rng.choice([0, 0.02]))
                for _ in range(100):
                    # (the manager may not know yet that the installer runs)
                    man.cancel_install()
                    t.join(0.3)
                    if not t.is_alive():
                        break
            t.join(50)
        finally:
            sys.stdout, sys.stderr = so, se
            os.dup2(keep[0], 1), os.dup2(keep[1], 2)
            for f in (null, *keep):
                os.close(f)
        check(not t.is_alive(), "an installation did not end", **detail)
        calls = [json.loads(x) for x in argv.read_text().splitlines()]
        check(len(calls) == 1, "the installer was not started once", got=calls, **detail)
        pid, args = calls[0]
        check(not os.path.exists(f"/proc/{pid}"), "an installer runs on, or was not collected", **detail)
        if cancel:
            check(res["end"][0] == "failed" and res["end"][1] != 0, "an installation that was cancelled did not fail", got=res["end"], **detail)
            say(count="cancelled")
        else:
            check(res["end"] == (("ok", None) if code == 0 else ("failed", code)), "the end of an installation is not that of the installer", got=res["end"], **detail)
            say(count="ended_%d" % (code != 0))
        check(args[:2] == ["pip", "install"] and str(DIR / "envs" / "e") in args, "the installer was started for something else", got=args)
        i = min([args.index(p) for p in shown if p in args], default=-1)
        check(i >= 0 and args[i : i + len(shown)] == shown, "the installer was told other packages", got=args, **detail)
        rest = args[i + len(shown) :]
        pairs = [rest[j : j + 2] for j in range(len(rest)) if rest[j] in ("-i", "--extra-index-url", "-f", "--trusted-host")]
        check(sorted(pairs) == sorted(want), "the installer was told other options", got=rest, want=want, **detail)
        check(("--no-build-isolation" in rest) == bool(options.get("no_build_isolation")), "the installer was told other options", got=rest, **detail)
        if log:
            import re

            ansi = re.compile("\x1b\\[[0-9;]*[A-Za-z]")
            for s, level in ((1, logging.INFO), (2, logging.ERROR)):
                got = [m for lv, m in records if lv == level]
                wanted = [ansi.sub("", x.encode("latin-1").decode(errors="replace")) for x in lines[s]]
                check(got == wanted, "what the installer said is not what was logged", stream=s, got=got[:5], want=wanted[:5], n=(len(got), len(wanted)), **detail)
            shown_text = "".join(d.encode("latin-1").decode(errors="replace") for s, d in output if s == 1)
            check(terminal.getvalue() == shown_text, "what the installer said is not what was shown", **detail)
            say(count="logs_compared")
        say(case=["stand-in", log, cancel, code], nontrivial=True, sample=detail)
        man.cancel_install()  # nothing is there to be cancelled


if __name__ == "__main__":
    rng = random.Random(SPEC["seed"])
    with contextlib.suppress(Wrong):
        try:
            if SPEC["mode"] == "real":
                (DIR / "wheels").mkdir()
                for name, versions in INDEX.items():
                    for v, requires in versions.items():
                        wheel(name, v, requires)
                real(rng)
            else:
                stand_in(rng)
        except Wrong:
            raise
        except Exception as e:
            import traceback

            say(violation="an operation that must succeed raised", detail=dict(error=repr(e), traceback=traceback.format_exc()[-1500:]))
    say(done=True)
