"""C20/C21: values of every kind a user passes, and a strict comparison."""
import collections
import datetime
import decimal
import enum
import fractions
import functools
import math
import pathlib
import re
import types
import uuid

import numpy as np

try:
    import scipy.sparse as sps
except ImportError:
    sps = None
try:
    import pandas as pd
except ImportError:
    pd = None
try:
    import pyarrow as pa
except ImportError:
    pa = None
torch = None


def use_torch():
    global torch
    if torch is None:
        try:
            import torch as t
        except ImportError:
            t = False
        torch = t
    return torch


class Color(enum.Enum):
    RED = 1
    GREEN = "g"


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 10**6


class Word(str, enum.Enum):
    A = "a"
    LONG = "x" * 2000


class Perm(enum.Flag):
    R = 1
    W = 2


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slotted:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class Stated:
    def __init__(self, v):
        self.v, self.lost = v, "x"

    def __getstate__(self):
        return {"v": self.v}

    def __setstate__(self, s):
        self.v, self.lost = s["v"], "restored"


class Reduced:
    def __init__(self, *a):
        self.a = a

    def __reduce__(self):
        return Reduced, self.a


class MyTuple(tuple):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class Node(list):
    """Usable as a key whatever it holds."""

    __hash__ = object.__hash__
    __eq__ = object.__eq__


class Stack(list):
    """Made of its items one by one."""

    def __init__(self, *items):
        super().__init__(items)


class Pair(tuple):
    def __new__(cls, a, b):
        return super().__new__(cls, (a, b))

    def __getnewargs__(self):
        return self[0], self[1]


class SlotList(list):
    __slots__ = ("mark",)


def marked(o, v):
    o.mark = v
    return o


class Default(collections.defaultdict):
    pass


class Unit(collections.namedtuple("Unit", "a b")):
    pass


class InitDict(dict):
    """Takes nothing when made."""

    def __init__(self):
        super().__init__()


Point = collections.namedtuple("Point", "x y")
Solo = collections.namedtuple("Solo", "only")
Empty = collections.namedtuple("Empty", "")
Renamed = collections.namedtuple("Renamed", "class y", rename=True)


class SubArray(np.ndarray):
    pass


try:
    from dataclasses import dataclass, field

    @dataclass
    class Data:
        a: object
        b: list = field(default_factory=list)

    @dataclass(frozen=True)
    class Frozen:
        a: object
except ImportError:  # pragma: no cover
    pass


def topfunc(x, y=2):
    return x * y


# ---------------------------------------------------------------------------


def scalar(r):
    k = r.randrange(30)
    if k == 0:
        return None
    if k == 1:
        return r.random() < 0.5
    if k == 2:
        return r.choice([0, -1, 1, 255, 256, 2**31, -(2**63), 2**64, 10**40, -(10**400)])
    if k == 3:
        return r.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 1e-320, 1.5, r.random()])
    if k == 4:
        return complex(r.choice([0.0, -0.0, math.nan, 1.5]), r.random())
    if k == 5:
        return datetime.datetime(2020, 2, 29, 12, 1, 2, r.randrange(10**6), tzinfo=r.choice([None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=45))]), fold=r.randrange(2))
    if k == 6:
        return r.choice([datetime.date.min, datetime.date(2024, 1, 2), datetime.timedelta(days=-3, microseconds=5), datetime.time(1, 2, 3)])
    if k == 7:
        return r.choice([Color.RED, Color.GREEN, Level.HIGH, Perm.R | Perm.W, Perm(0)])
    if k == 8:
        return r.choice([Word.A, Word.LONG])
    if k == 9:
        return r.choice([max, len, print, int, dict, np.float32, Plain, topfunc, math.sqrt, np.add, type(None), Color])
    if k == 10:
        return np.dtype(r.choice(["i4", ">f8", "M8[us]", "U7", "V3", [("a", "i2"), ("b", "f4", (2,))], "O", "?"]))
    if k == 11:
        return r.choice([np.int8(-5), np.uint64(2**64 - 1), np.float16(1.5), np.float32("nan"), np.bool_(True), np.complex64(1 + 2j), np.datetime64("2020-01-01T00:00:01"), np.timedelta64(5, "ms"),
                         np.str_("hé"), np.bytes_(b"ab\x00c"), np.longdouble("1.25"), np.void(b"xyz")])
    if k in (12, 13, 14):
        return string(r)
    if k == 15:
        return r.randbytes(r.choice([0, 1, 3, 1023, 1024, 1025, 5000]))
    if k == 16:
        a = np.frombuffer(r.randbytes(2400), "u1").copy()
        return r.choice([lambda: memoryview(b"abc"), lambda: memoryview(a), lambda: memoryview(a[::3]), lambda: memoryview(a.view("f8")), lambda: memoryview(a.reshape(40, 60)), lambda: memoryview(a.view("c8").reshape(3, 100)),
                         lambda: memoryview(np.asfortranarray(a.reshape(40, 60))), lambda: memoryview(a[:8].view("i8").reshape(())), lambda: memoryview(b"")])()
    if k == 17:
        return r.choice([MyStr("s"), MyStr("s" * 2000), MyBytes(b"b"), MyBytes(b"b" * 3000), MyInt(5), MyFloat(1.5)])
    if k == 18:
        return bytearray(r.randbytes(r.choice([0, 3, 3000])))
    if k == 19:
        return r.choice([decimal.Decimal("1.10"), decimal.Decimal("NaN"), fractions.Fraction(1, 3), uuid.UUID(int=r.getrandbits(128)), pathlib.PurePosixPath("/a/b"), range(1, 9, 3), slice(1, None, 2), ..., NotImplemented,
                         re.compile("a+", re.I), types.SimpleNamespace(a=1)])
    return r.randint(-1000, 1000)


def string(r):
    n = r.choice([0, 1, 5, 1023, 1024, 1025, 4000])
    a = r.choice(["ab", "é☃", "\x00a", "😀a", "\ud800", "\udcff."])
    return "".join(r.choice(a) for _ in range(n))


def hashable(r, depth):
    k = r.randrange(8)
    if k == 0 and depth > 0:
        return tuple(hashable(r, depth - 1) for _ in range(r.randint(0, 3)))
    if k == 1 and depth > 0:
        return Point(hashable(r, depth - 1), r.randint(0, 9))
    if k == 2 and depth > 0:
        return frozenset(r.randint(0, 9) for _ in range(3))
    while True:
        v = scalar(r)
        try:
            if v == v and not isinstance(v, memoryview):
                hash(v)
                return v
        except Exception:
            pass


def array(r):
    shape = r.choice([(), (0,), (1,), (7,), (3, 4), (2, 3, 4), (0, 5), (1, 1, 1), (300, 40)])
    dt = r.choice(["i1", "u2", "i4", ">i4", "f2", "f4", "<f8", ">f8", "c8", "c16", "?", "S5", "U3", "M8[ns]", "m8[s]", "V4", [("a", "i4"), ("b", "f8")], [("a", "u1"), ("sub", [("x", "f4"), ("y", "S2")])], [("v", "f4", (2, 2))], "O"])
    n = int(np.prod(shape))
    dt = np.dtype(dt)
    if dt == object:
        a = np.empty(shape, "O")
        for i in np.ndindex(*shape):
            a[i] = r.choice([None, 1, "x", (1, 2), [3]])
    else:
        a = np.frombuffer(r.randbytes(max(1, n * dt.itemsize)), "u1")[: n * dt.itemsize].copy()
        if dt.kind == "U":
            a = np.array([r.choice(["", "ab", "é☃x"]) for _ in range(n)], dt).reshape(shape)
        elif dt.kind == "b":
            a = (a & 1).astype("?").reshape(shape)
        else:
            a = a.view(dt).reshape(shape) if n else np.empty(shape, dt)
    k = r.randrange(9)
    if k == 0:
        a = np.asfortranarray(a)
    elif k == 1 and a.ndim:
        a = a[::-1]
    elif k == 2 and a.ndim and a.shape[0]:
        a = a[::2]
    elif k == 3 and a.ndim > 1:
        a = a.T
    elif k == 4 and a.ndim > 1:
        a = a.transpose(*r.sample(range(a.ndim), a.ndim))
    elif k == 5:
        a = np.broadcast_to(a, (2,) + a.shape)
    elif k == 6 and dt.names:
        a = a[list(reversed(dt.names))]
    elif k == 7 and dt.names:
        a = a[[dt.names[-1]]]
    elif k == 8 and a.dtype != object and not dt.names:
        a = r.choice([lambda: a.view(SubArray), lambda: np.ma.masked_array(a, mask=np.zeros(a.shape, bool)) if dt.kind in "if" else a, lambda: a.view(np.recarray) if False else a])()
    if r.random() < 0.2:
        a = a.copy(order="K")
        a.flags.writeable = False
    return a


def sparse(r):
    m = sps.random(r.randint(1, 6), r.randint(1, 6), density=r.choice([0, 0.4]), format=r.choice(["csr", "csr", "csc", "coo", "lil", "dok", "bsr", "dia"]), dtype=r.choice(["f8", "f4"]), random_state=r.getrandbits(31))
    if r.random() < 0.3:
        m = {"csr": sps.csr_array, "csc": sps.csc_array, "coo": sps.coo_array, "dok": sps.dok_array}.get(m.format, lambda x: x)(m)
    return m


def frame(r):
    k = r.randrange(8)
    if k == 0:
        return pd.DataFrame({"a": np.arange(r.randint(0, 20)), "b": "x"})
    if k == 1:
        return pd.DataFrame({"f": [1.5, None], "o": [Plain(a=1).__dict__, (1, 2)], "c": pd.Categorical(["u", "v"])}, index=pd.MultiIndex.from_tuples([(1, "a"), (2, "b")], names=["i", None]))
    if k == 2:
        return pd.Series([1, 2, None], dtype="Int64", name="n")
    if k == 3:
        return pd.Series(pd.date_range("2020", periods=3, tz="UTC"), index=list("abc"))
    if k == 4:
        return pd.Index(["a", "b"], name="idx")
    if k == 5:
        return pd.Timestamp("2020-01-01 01:02:03.000000004", tz="Asia/Kathmandu")
    if k == 6:
        return r.choice([pd.NaT, pd.NA, pd.Timedelta("1ns"), pd.Period("2020-01", "M"), pd.Interval(0, 1)])
    return pd.DataFrame(np.asfortranarray(np.arange(2000.0).reshape(100, 20)), columns=[f"c{i}" for i in range(20)])


def arrow(r):
    return r.choice([lambda: pa.array([1, None, 3]), lambda: pa.table({"a": [1, 2], "s": ["x", None]}), lambda: pa.record_batch([pa.array(["a" * 2000])], names=["x"]), lambda: pa.schema([("a", pa.int8())])])()


def tensor(r):
    t = use_torch()
    shape = r.choice([(), (0,), (3,), (2, 3), (2, 0, 4), (4, 5, 6)])
    dt = r.choice([t.float32, t.float64, t.float16, t.bfloat16, t.int8, t.uint8, t.int64, t.bool, t.complex64])
    x = (t.rand(shape, generator=t.Generator().manual_seed(r.getrandbits(31))) * 100).to(dt)
    k = r.randrange(10)
    if k == 0 and x.dim() >= 2:
        x = x.transpose(0, 1)
    elif k == 1 and x.dim():
        x = x[::2]
    elif k == 2 and dt.is_floating_point:
        x = x.requires_grad_()
    elif k == 3 and dt == t.complex64:
        x = x.conj()
    elif k == 4 and dt == t.float32:
        x = t.nn.Parameter(x)
    elif k == 5 and dt == t.float32 and x.dim() == 2:
        x = x.to_sparse()
    elif k == 6 and x.dim():
        x = x.expand((2,) + tuple(x.shape))
    elif k == 7 and x.dim():
        x = x[1:]
    elif k == 8 and dt == t.complex64:
        x = x.imag
    return x


def leafy(r):
    """Bigger leaves."""
    ks = [array, array]
    if sps is not None:
        ks.append(sparse)
    if pd is not None:
        ks.append(frame)
    if pa is not None:
        ks.append(arrow)
    if torch:
        ks.append(tensor)
    return r.choice(ks)(r)


def value(r, depth=3):
    k = r.randrange(26)
    if depth <= 0 or k < 7:
        return scalar(r)
    if k < 10:
        return leafy(r)
    d = depth - 1
    n = r.choice([0, 1, 2, 3, 3])
    if k < 13:
        return [value(r, d) for _ in range(n)]
    if k < 15:
        return tuple(value(r, d) for _ in range(n))
    if k < 18:
        return {hashable(r, 1): value(r, d) for _ in range(n)}
    if k == 18:
        return r.choice([set, frozenset])(hashable(r, 1) for _ in range(n))
    if k == 19:
        return r.choice([lambda: Point(value(r, d), value(r, d)), lambda: Renamed(1, value(r, d)), lambda: Solo(value(r, d)), lambda: r.choice([Empty(), Solo(())]), lambda: MyTuple((1, value(r, d))), lambda: MyList([value(r, d)]), lambda: MyDict(a=value(r, d)),
                         lambda: Unit(1, value(r, d)), lambda: marked(Unit(1, value(r, d)), value(r, d)), lambda: Stack(1, value(r, d)), lambda: Pair(1, value(r, d)), lambda: marked(MyList([value(r, d)]), value(r, d)),
                         lambda: marked(MyTuple([value(r, d)]), value(r, d)), lambda: marked(MyDict(a=value(r, d)), value(r, d)), lambda: marked(SlotList([value(r, d)]), value(r, d)), lambda: Default(list, {1: value(r, d)})])()
    if k == 20:
        x = InitDict()
        x["k"] = value(r, d)
        return r.choice([collections.OrderedDict(a=value(r, d), b=1), collections.Counter("abca"), collections.ChainMap({"a": value(r, d)}, {}), types.MappingProxyType({}) if False else {}, x])
    if k == 21:
        return collections.deque([value(r, d) for _ in range(n)], maxlen=r.choice([None, 5]))
    if k == 22:
        dd = collections.defaultdict(r.choice([int, list, None, functools.partial(int, "7"), lambda: 5]))
        for i in range(n):
            dd[i] = value(r, d)
        return dd
    if k == 23:
        return r.choice([Data(value(r, d), [1]), Frozen(value(r, d)), Plain(a=value(r, d), b=1), Slotted(1, value(r, d)), Stated(value(r, d)), Reduced(value(r, d), 2)])
    if k == 24:
        v = value(r, 0)
        return r.choice([lambda: (lambda y: (v, y)), lambda: functools.partial(topfunc, 3), lambda: Plain(a=1).__init__.__func__])()
    return [value(r, d)] * 2


# ---------------------------------------------------------------------------


def tname(o):
    t = type(o)
    return f"{t.__module__}.{t.__qualname__}"


def diff(a, b, path="", seen=None):
    """None if b is a faithful copy of a, else where and how it differs."""
    seen = seen if seen is not None else set()
    if a is b:
        return None
    key = (id(a), id(b))
    if key in seen:
        return None
    seen.add(key)
    here = path or "value"
    if isinstance(a, memoryview):
        return None if type(b) in (bytes, memoryview) and bytes(b) == a.tobytes() else f"{here}: memoryview differs"
    if tname(a) != tname(b):
        return f"{here}: type {tname(a)} became {tname(b)}"
    t = type(a)
    if isinstance(a, types.FunctionType):
        if a.__name__ != b.__name__ or a.__defaults__ != b.__defaults__ or a.__code__.co_code != b.__code__.co_code:
            return f"{here}: function differs"
        ca = [c.cell_contents for c in a.__closure__ or ()]
        cb = [c.cell_contents for c in b.__closure__ or ()]
        return diff(ca, cb, here + ".closure", seen)
    if isinstance(a, (type, types.BuiltinFunctionType, np.ufunc)):
        return None if a is b or t is type and a.__qualname__ == b.__qualname__ else f"{here}: {a!r} became {b!r}"
    if isinstance(a, enum.Enum):
        return None if a.name == b.name and a._value_ == b._value_ else f"{here}: {a!r} became {b!r}"
    if isinstance(a, np.ndarray):
        if (type(a) is not np.ndarray or not (a.flags.c_contiguous or a.flags.f_contiguous)) and a.dtype.newbyteorder("=") == b.dtype:
            a = a.astype(b.dtype)  # pickle of numpy itself does not keep the byte order there
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"{here}: array {a.dtype}{a.shape} became {b.dtype}{b.shape}"
        if isinstance(a, np.ma.MaskedArray):
            return diff(np.ma.getmaskarray(a), np.ma.getmaskarray(b), here + ".mask", seen) or diff(np.asarray(a.filled()), np.asarray(b.filled()), here + ".data", seen)
        if a.dtype == object:
            return diff(a.tolist(), b.tolist(), here + ".items", seen)
        return None if packed(a) == packed(b) else f"{here}: contents of array {a.dtype}{a.shape} differ"
    if isinstance(a, np.generic):
        return None if a.dtype == b.dtype and packed(np.asarray(a)) == packed(np.asarray(b)) else f"{here}: {a!r} became {b!r}"
    if sps is not None and sps.issparse(a):
        return None if a.shape == b.shape and a.dtype == b.dtype and (a.toarray() == b.toarray()).all() and a.nnz == b.nnz else f"{here}: sparse differs"
    if pd is not None and isinstance(a, (pd.DataFrame, pd.Series, pd.Index)):
        try:
            dict(DataFrame=pd.testing.assert_frame_equal, Series=pd.testing.assert_series_equal).get(t.__name__, pd.testing.assert_index_equal)(a, b)
        except AssertionError as e:
            return f"{here}: {e}"
        return None
    if pa is not None and isinstance(a, (pa.Array, pa.Table, pa.RecordBatch, pa.Schema)):
        return None if a.equals(b) else f"{here}: arrow differs"
    if torch and isinstance(a, torch.Tensor):
        if a.dtype != b.dtype or a.shape != b.shape or a.requires_grad != b.requires_grad or a.layout != b.layout or a.is_quantized != b.is_quantized:
            return f"{here}: tensor {a.dtype}{tuple(a.shape)} {a.layout} grad={a.requires_grad} became {b.dtype}{tuple(b.shape)} {b.layout} grad={b.requires_grad}"
        if a.is_quantized:
            return diff(a.dequantize(), b.dequantize(), here, seen)
        if a.layout != torch.strided:
            a, b = a.to_dense(), b.to_dense()
        a, b = a.detach().resolve_conj().resolve_neg().contiguous(), b.detach().resolve_conj().resolve_neg().contiguous()
        return None if bytes(a.clone().untyped_storage())[: a.nbytes] == bytes(b.clone().untyped_storage())[: a.nbytes] else f"{here}: contents of tensor differ"
    if isinstance(a, float):
        return None if (a == b and math.copysign(1, a) == math.copysign(1, b)) or (a != a and b != b) else f"{here}: {a!r} became {b!r}"
    if isinstance(a, complex):
        return diff(a.real, b.real, here, seen) or diff(a.imag, b.imag, here, seen)
    if isinstance(a, datetime.datetime):
        return None if repr(a) == repr(b) and a.fold == b.fold else f"{here}: {a!r} became {b!r}"
    if isinstance(a, decimal.Decimal):
        return None if str(a) == str(b) else f"{here}: {a!r} became {b!r}"
    if isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b):
            return f"{here}: length {len(a)} became {len(b)}"
        if isinstance(a, SlotList) and (e := diff(a.mark, getattr(b, "mark", None), here + ".mark", seen)):
            return e
        if isinstance(a, collections.deque) and a.maxlen != b.maxlen:
            return f"{here}: maxlen"
        for i, (x, y) in enumerate(zip(a, b)):
            if d := diff(x, y, f"{here}[{i}]", seen):
                return d
        return attrs(a, b, here, seen)
    if isinstance(a, (dict, collections.ChainMap)):
        if isinstance(a, collections.ChainMap):
            return diff(a.maps, b.maps, here, seen)
        if len(a) != len(b):
            return f"{here}: length {len(a)} became {len(b)}"
        for (k1, v1), (k2, v2) in zip(a.items(), b.items()):
            if d := diff(k1, k2, f"{here}.key", seen) or diff(v1, v2, f"{here}[{k1!r:.40}]", seen):
                return d
        if isinstance(a, collections.defaultdict):
            if d := diff(a.default_factory, b.default_factory, here + ".default_factory", seen):
                return d
        return attrs(a, b, here, seen)
    if isinstance(a, (set, frozenset)):
        return None if len(a) == len(b) and sorted(map(canon, a)) == sorted(map(canon, b)) else f"{here}: {a!r:.100} became {b!r:.100}"
    if isinstance(a, functools.partial):
        return diff([a.func, a.args, a.keywords], [b.func, b.args, b.keywords], here, seen)
    if isinstance(a, (Plain, Data, Frozen, Reduced, types.SimpleNamespace)):
        return attrs(a, b, here, seen)
    if isinstance(a, Slotted):
        return diff([a.a, a.b], [b.a, b.b], here, seen)
    if isinstance(a, Stated):
        return diff(a.v, b.v, here, seen) or (None if b.lost == "restored" or "original" in seen else f"{here}: __setstate__ was not called")
    if isinstance(a, re.Pattern):
        return None if (a.pattern, a.flags) == (b.pattern, b.flags) else f"{here}: pattern"
    if isinstance(a, BaseException):
        return diff(a.args, b.args, here + ".args", seen) or attrs(a, b, here, seen)
    try:
        same = bool(a == b)
    except Exception as e:
        return f"{here}: cannot be compared: {e!r}"
    return (None if same else f"{here}: {a!r:.200} became {b!r:.200}") or attrs(a, b, here, seen)


def packed(a):
    """Bytes of the values (padding between fields of records excluded)."""
    if a.dtype.names:
        return [(n, packed(np.ascontiguousarray(a[n]))) for n in a.dtype.names]
    if a.dtype.char in "gG":
        return repr(a.tolist())  # padding
    return a.tobytes()


def attrs(a, b, here, seen):
    if type(a).__module__.partition(".")[0] in ("pandas", "pyarrow", "numpy", "scipy"):
        return None  # caches
    da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
    if not isinstance(da, dict) or isinstance(a, types.BuiltinFunctionType):
        return None
    return diff(da, db or {}, here + ".__dict__", seen)


def canon(v):
    return f"{tname(v)} {sorted(map(canon, v))}" if isinstance(v, (set, frozenset)) else f"{tname(v)} {v!r}"
